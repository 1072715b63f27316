// stand-ins for the logging library in native replays (logging has no influence on results)
#include <log4cpp/Category.hh>
namespace log4cpp {
static char buf[4096];
Category& Category::getInstance(const std::string&) { return *reinterpret_cast<Category*>(buf); }
Category& Category::getRoot() { return *reinterpret_cast<Category*>(buf); }
void Category::setPriority(Priority::Value) throw(std::invalid_argument) {}
}
