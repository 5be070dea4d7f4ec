// Pure logging of elapsed times: left out so that symbolic times are not formatted digit by digit.
#include <libstuff/libstuff.h>
#include <libstuff/SPerformanceTimer.h>
#include <sqlitecluster/SQLite.h>
void SPerformanceTimer::log(chrono::steady_clock::duration) {}
void SQLite::logLastTransactionTiming(const string&, const string&) {}
