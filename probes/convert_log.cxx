// Uses of the logging macros, each at a place where a statement may stand. Each has to be accepted by the type checker
// (one program per line) and do what its name says (never compiled to an executable).
#include <vital/logger/logger.h>
#include <vital/logger/kwiver_logger_manager.h>
#include <vital/logger/kwiver_logger_factory.h>

namespace verif_log {
using kwiver::vital::logger_handle_t;
int text( int n );
bool cond();
void other();
void log_fatal( logger_handle_t l, int n ) { if ( n ) LOG_FATAL( l, "text " << text( n ) ); else other(); }
void log_error( logger_handle_t l, int n ) { if ( n ) LOG_ERROR( l, "text " << text( n ) ); else other(); }
void log_warn( logger_handle_t l, int n ) { if ( n ) LOG_WARN( l, "text " << text( n ) ); else other(); }
void log_info( logger_handle_t l, int n ) { if ( n ) LOG_INFO( l, "text " << text( n ) ); else other(); }
void log_debug( logger_handle_t l, int n ) { if ( n ) LOG_DEBUG( l, "text " << text( n ) ); else other(); }
void log_trace( logger_handle_t l, int n ) { if ( n ) LOG_TRACE( l, "text " << text( n ) ); else other(); }
void log_assert( logger_handle_t l, int n ) { if ( n ) LOG_ASSERT( l, cond() || n == 1, "text " << text( n ) ); else other(); }
bool is_fatal( logger_handle_t l ) { return ! IS_FATAL_ENABLED( l ); }
bool is_error( logger_handle_t l ) { return ! IS_ERROR_ENABLED( l ); }
bool is_warn( logger_handle_t l ) { return ! IS_WARN_ENABLED( l ); }
bool is_info( logger_handle_t l ) { return ! IS_INFO_ENABLED( l ); }
bool is_debug( logger_handle_t l ) { return ! IS_DEBUG_ENABLED( l ); }
bool is_trace( logger_handle_t l ) { return ! IS_TRACE_ENABLED( l ); }
struct factory : kwiver::vital::logger_ns::kwiver_logger_factory
{ factory() : kwiver_logger_factory( "x" ) {} virtual logger_handle_t get_logger( std::string const& ) { return logger_handle_t(); } };
void install() { kwiver::vital::kwiver_logger_manager::instance()->set_logger_factory( std::unique_ptr< kwiver::vital::logger_ns::kwiver_logger_factory >( new factory ) ); }
}
