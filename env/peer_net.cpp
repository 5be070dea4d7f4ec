// The network edge of a cluster node: messages handed to a peer's socket and requests to drop its connection are given to the harness; ports are never opened; random numbers come from the harness.
#include <sqlitecluster/SQLitePeer.h>
#include <libstuff/SRandom.h>
void vp_net_send(SQLitePeer*, const SData&);
void vp_net_shutdown(SQLitePeer*);
__attribute__((weak)) bool vp_net_remaining(const SQLitePeer*) { return false; }
__attribute__((weak)) uint64_t vp_net_rand() { return 0; }
void SQLitePeer::sendMessage(const SData& m) { vp_net_send(this, m); }
void SQLitePeer::shutdownSocket() { vp_net_shutdown(this); }
bool SQLitePeer::connected() const { return true; }
bool SQLitePeer::remainingDataToSend() const { return vp_net_remaining(this); }
unique_ptr<STCPManager::Port> STCPManager::openPort(const string&) { return nullptr; }
uint64_t SRandom::rand64() { return vp_net_rand(); }
