// Instantiates the templates of the value types so that their members appear in the analysed program
// (never compiled to an executable).
#include <vital/types/covariance.h>
#include <vital/types/descriptor.h>
#include <vital/types/feature.h>
#include <vital/types/landmark.h>
#include <vital/types/homography.h>
#include <vital/types/homography_f2f.h>
#include <vital/types/homography_f2w.h>
#include <vital/types/rotation.h>
#include <vital/types/similarity.h>
#include <vital/types/essential_matrix.h>
#include <vital/types/fundamental_matrix.h>
#include <vital/types/camera.h>
#include <vital/types/camera_map.h>
#include <vital/types/landmark_map.h>
#include <vital/types/feature_set.h>
#include <vital/types/descriptor_set.h>
#include <vital/types/match_set.h>
#include <vital/types/geo_lat_lon.h>
#include <vital/types/color.h>

namespace kwiver {
namespace vital {
template class covariance_< 2, double >;
template class covariance_< 2, float >;
template class covariance_< 3, double >;
template class covariance_< 3, float >;
template class descriptor_dynamic< float >;
template class descriptor_fixed< unsigned char, 4 >;
}
}

namespace verif_probe {
using namespace kwiver::vital;
f2f_homography h1( Eigen::Matrix< double, 3, 3 > const& m ) { return f2f_homography( m, 1, 2 ); }
bool e1( similarity_d const& a, similarity_d const& b ) { return a == b || a != b || a.inverse() == b; }
bool e2( rotation_d const& a, rotation_d const& b ) { return a == b || a != b || a.inverse() == b; }
bool e3( rgb_color const& a, rgb_color const& b ) { return a == b || a != b; }
simple_camera k1( camera const& c ) { return simple_camera( c ); }
simple_camera_intrinsics k2( camera_intrinsics const& c ) { return simple_camera_intrinsics( c ); }
size_t n1( simple_camera_map& a, simple_landmark_map& b, simple_feature_set& c, simple_descriptor_set& d, simple_match_set& e )
{
  return a.size() + b.size() + c.size() + d.size() + e.size() + a.cameras().size() + b.landmarks().size()
         + c.features().size() + d.descriptors().size() + e.matches().size();
}
}
