#define ELPP_THREAD_SAFE
#define ELPP_NO_DEFAULT_LOG_FILE
#include <easylogging++.h>
INITIALIZE_EASYLOGGINGPP
namespace { struct I { I() { static char const * a[2] = {"h", 0}; el::Helpers::setArgs( 1, (char**) a ); el::Configurations c; c.setToDefault(); c.setGlobally(el::ConfigurationType::ToFile,"false"); c.setGlobally(el::ConfigurationType::Format,"%level %msg");
  for( auto l : {el::Level::Info, el::Level::Debug, el::Level::Verbose, el::Level::Trace} ) c.set(l,el::ConfigurationType::Enabled,"false"); el::Loggers::reconfigureAllLoggers(c); } } g; }
