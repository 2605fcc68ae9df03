// Instantiates the utility templates so that their members appear in the analysed program (never compiled to an executable).
#include <Eigen/Sparse>
#include <vital/util/enumerate_matrix.h>
#include <vital/util/tokenize.h>
#include <vital/util/cpu_timer.h>
#include <vital/util/wall_timer.h>
#include <string>
#include <vector>

namespace kwiver {
namespace vital {
template class sparse_matrix_enumerator< double, 0, int >;
template class sparse_matrix_enumerator< unsigned, 1, int >;
}
}

namespace verif_probe {
void tok( std::string const& s, std::vector< std::string >& r )
{
  kwiver::vital::tokenize( s, r, ",", true );
}
int cells( Eigen::SparseMatrix< double > const& m )
{
  int n = 0;
  auto e = kwiver::vital::enumerate( m );
  for ( auto i = e.begin(); i != e.end(); ++i ) { n += ( *i ).row(); }
  return n;
}
}
