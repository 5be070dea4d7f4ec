// Outgoing connections: S_socket asks the harness for a descriptor instead of the operating system.
#include <libstuff/libstuff.h>
int vp_connect(const string&);
int S_socket(const string& host, bool, bool, bool) { return vp_connect(host); }
