// Instantiates the templated part of the configuration interface so that its
// code appears in the analysed program (never compiled to an executable).
#include <vital/config/config_block.h>
#include <vital/types/timestamp.h>
#include <vital/types/timestamp_config.h>
#include <vital/types/vector.h>
#include <vital/types/matrix.h>
#include <vital/io/eigen_io.h>

namespace kwiver {
namespace vital {
template int config_block::get_value< int >( config_block_key_t const& ) const;
template unsigned config_block::get_value< unsigned >( config_block_key_t const& ) const;
template double config_block::get_value< double >( config_block_key_t const& ) const;
template float config_block::get_value< float >( config_block_key_t const& ) const;
template bool config_block::get_value< bool >( config_block_key_t const& ) const;
template std::string config_block::get_value< std::string >( config_block_key_t const& ) const;
template timestamp config_block::get_value< timestamp >( config_block_key_t const& ) const;

template int config_block::get_value< int >( config_block_key_t const&, int const& ) const;
template double config_block::get_value< double >( config_block_key_t const&, double const& ) const;
template bool config_block::get_value< bool >( config_block_key_t const&, bool const& ) const;
template std::string config_block::get_value< std::string >( config_block_key_t const&, std::string const& ) const;
template timestamp config_block::get_value< timestamp >( config_block_key_t const&, timestamp const& ) const;

template void config_block::set_value< int >( config_block_key_t const&, int const& );
template void config_block::set_value< double >( config_block_key_t const&, double const& );
template void config_block::set_value< bool >( config_block_key_t const&, bool const& );
template void config_block::set_value< std::string >( config_block_key_t const&, std::string const& );
template void config_block::set_value< timestamp >( config_block_key_t const&, timestamp const& );
template void config_block::set_value< int >( config_block_key_t const&, int const&, config_block_description_t const& );
template void config_block::set_value< double >( config_block_key_t const&, double const&, config_block_description_t const& );
template void config_block::set_value< timestamp >( config_block_key_t const&, timestamp const&, config_block_description_t const& );
}
}
