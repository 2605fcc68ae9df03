// Conversions between the precisions of the value types. Each has to be accepted by the type checker;
// one program per line (never compiled to an executable).
#include <vital/types/covariance.h>
#include <vital/types/feature.h>
#include <vital/types/landmark.h>
#include <vital/types/homography.h>
#include <vital/types/rotation.h>
#include <vital/types/similarity.h>
#include <vital/types/essential_matrix.h>
#include <vital/types/fundamental_matrix.h>

namespace verif_convert {
using namespace kwiver::vital;
homography_< float > homography_float_from_double( homography_< double > const& x ) { return homography_< float >( x ); }
homography_< double > homography_double_from_float( homography_< float > const& x ) { return homography_< double >( x ); }
fundamental_matrix_< float > fundamental_float_from_double( fundamental_matrix_< double > const& x ) { return fundamental_matrix_< float >( x ); }
fundamental_matrix_< double > fundamental_double_from_float( fundamental_matrix_< float > const& x ) { return fundamental_matrix_< double >( x ); }
essential_matrix_< float > essential_float_from_double( essential_matrix_< double > const& x ) { return essential_matrix_< float >( x ); }
essential_matrix_< double > essential_double_from_float( essential_matrix_< float > const& x ) { return essential_matrix_< double >( x ); }
covariance_2f covariance2_float_from_double( covariance_2d const& x ) { return covariance_2f( x ); }
covariance_2d covariance2_double_from_float( covariance_2f const& x ) { return covariance_2d( x ); }
covariance_3f covariance3_float_from_double( covariance_3d const& x ) { return covariance_3f( x ); }
covariance_3d covariance3_double_from_float( covariance_3f const& x ) { return covariance_3d( x ); }
feature_f feature_float_from_double( feature_d const& x ) { return feature_f( x ); }
feature_d feature_double_from_float( feature_f const& x ) { return feature_d( x ); }
landmark_f landmark_float_from_double( landmark_d const& x ) { return landmark_f( x ); }
landmark_d landmark_double_from_float( landmark_f const& x ) { return landmark_d( x ); }
rotation_f rotation_float_from_double( rotation_d const& x ) { return rotation_f( x ); }
rotation_d rotation_double_from_float( rotation_f const& x ) { return rotation_d( x ); }
similarity_f similarity_float_from_double( similarity_d const& x ) { return similarity_f( x ); }
similarity_d similarity_double_from_float( similarity_f const& x ) { return similarity_d( x ); }
}
