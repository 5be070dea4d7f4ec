#pragma once
#include "../rt/vp.h"
#include "common.h"
#include <sqlitecluster/SQLite.h>
#include <sqlitecluster/SQLiteNode.h>
#include <sqlitecluster/SQLitePeer.h>
#include <sqlitecluster/SQLiteServer.h>
#include <libstuff/SQResult.h>
#include <libstuff/SData.h>
typedef SQLiteNodeState St; typedef SQLitePeer::Response Rs;
struct Server : SQLiteServer { int blocked = 0; void onNodeLogin(SQLitePeer*) {} void notifyStateChangeToPlugins(SQLite&, SQLiteNodeState) {} void blockCommandPort(const string&) { blocked++; } void unblockCommandPort(const string&) { blocked--; } };
static Server server;
static string peerNames(size_t n) { string s; for (size_t i = 0; i < n; i++) s += (i ? "," : "") + string("h") + to_string(i) + ":1500" + to_string(i) + "?nodeName=p" + to_string(i); return s; }
static shared_ptr<SQLitePool> mkPool(const string& file, size_t commits) { auto p = make_shared<SQLitePool>(4, file, 0, 1000, -1); SQLite& db = p->getBase(); for (size_t i = 0; i < commits; i++) { db.beginTransaction(); db.write(i ? "INSERT INTO t VALUES (" + to_string(i) + ");" : "CREATE TABLE t (a INTEGER);"); db.prepare(); db.commit(); } db.popCommittedTransactions(); return p; }
static bool leadingish(int s) { return s == (int)St::STANDINGUP || s == (int)St::LEADING || s == (int)St::STANDINGDOWN; }
