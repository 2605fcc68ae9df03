// A concrete algorithm, so that the templates every implementation derives from appear in the analysed program
// (never compiled to an executable).
#include <vital/algo/algorithm.h>
#include <vital/algo/optimize_cameras.h>
#include <vital/registrar.h>

namespace verif_probe {
class probe_algo
  : public kwiver::vital::algorithm_impl< probe_algo, kwiver::vital::algo::optimize_cameras >
{
public:
  virtual std::string impl_name() const { return "probe"; }
  virtual void set_configuration( kwiver::vital::config_block_sptr ) { }
  virtual bool check_configuration( kwiver::vital::config_block_sptr ) const { return true; }
  virtual void optimize( kwiver::vital::camera_sptr&, const std::vector< kwiver::vital::feature_sptr >&,
                         const std::vector< kwiver::vital::landmark_sptr >& ) const { }
};

bool reg( kwiver::vital::registrar& r )
{
  return probe_algo::register_self( r ) && r.is_registered< kwiver::vital::algorithm >( "x" );
}
}
