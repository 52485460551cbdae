// Entry points of the C++ interface, one function per operation a user calls,
// over key and data types about which nothing is known but the interface they
// implement.  Only compiled to IR and analysed, never linked or run.
#include <cstdlib>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <stdexcept>
#include "ConfDataStoreDB.h"
#include "ConfDataStoreDBSimple.h"
#include "ConfDataStoreMultipleDB.h"
#include "AllConfStoreDB.h"
#include "AllConfStoreMultipleDB.h"
#include "ConfDataDBMerger.h"

class UKey final : public FILEDB::DBKey
{
public:
  UKey (void);
  UKey (const UKey&);
  UKey& operator = (const UKey&);
  ~UKey (void);
  int operator == (const UKey&) const;
  int operator != (const UKey&) const;
  unsigned short serialID (void) const;
  void writeObject (std::string&) const;
  void readObject (const std::string&);
  int hasHashFunc (void) const;
  int hasCompareFunc (void) const;
  static unsigned int hash (const void*, unsigned int);
  static int compare (const FFDB_DBT*, const FFDB_DBT*);
  long state_;
};

class UDat final : public FILEDB::DBData
{
public:
  UDat (void);
  UDat (const UDat&);
  UDat& operator = (const UDat&);
  ~UDat (void);
  unsigned short serialID (void) const;
  void writeObject (std::string&) const;
  void readObject (const std::string&);
  long state_;
};

using namespace FILEDB;
typedef ConfDataStoreDB<UKey, UDat> Conf;
typedef AllConfStoreDB<UKey, UDat> All;
typedef ConfDataStoreDBSimple Simple;
typedef ConfDataStoreMultipleDB<UKey, UDat> MConf;
typedef AllConfStoreMultipleDB<UKey, UDat> MAll;
typedef ConfDataDBMerger<UKey, UDat> Merger;
typedef std::string S;
typedef std::vector<std::string> VS;
typedef std::vector<UKey> VK;
typedef std::vector<UDat> VD;

// the classes the stores are made of
Simple* make_simple (void) { return new Simple (); }

// every member, and the virtual tables
template class FILEDB::ConfDataStoreDB<UKey, UDat>;
template class FILEDB::AllConfStoreDB<UKey, UDat>;
template class FILEDB::ConfDataStoreMultipleDB<UKey, UDat>;
template class FILEDB::AllConfStoreMultipleDB<UKey, UDat>;
template class FILEDB::ConfDataDBMerger<UKey, UDat>;

extern "C" {
// one configuration
int conf_open (Conf& s, const S& f, int fl, int m) { return s.open (f, fl, m); }
int conf_close (Conf& s) { return s.close (); }
int conf_insert (Conf& s, const UKey& k, const UDat& d) { return s.insert (k, d); }
int conf_insertWithStringKey (Conf& s, const S& k, const UDat& d) { return s.insertWithStringKey (k, d); }
int conf_insertBinary (Conf& s, const S& k, const S& d) { return s.insertBinary (k, d); }
int conf_get (Conf& s, const UKey& k, UDat& d) { return s.get (k, d); }
int conf_getBinary (Conf& s, const S& k, S& d) { return s.getBinary (k, d); }
bool conf_exist (Conf& s, const UKey& k) { return s.exist (k); }
void conf_keys (Conf& s, VK& k) { s.keys (k); }
void conf_binaryKeys (Conf& s, VS& k) { s.binaryKeys (k); }
void conf_keysAndData (Conf& s, VK& k, VD& d) { s.keysAndData (k, d); }
void conf_someKeyAndData (Conf& s, VK& k, VD& d) { s.someKeyAndData (k, d); }
void conf_stringKeysAndData (Conf& s, VS& k, VD& d) { s.stringKeysAndData (k, d); }
void conf_binaryKeysAndData (Conf& s, VS& k, VS& d) { s.binaryKeysAndData (k, d); }
void conf_flush (Conf& s) { s.flush (); }
int conf_insertUserdata (Conf& s, const S& d) { return s.insertUserdata (d); }
int conf_getUserdata (Conf& s, S& d) { return s.getUserdata (d); }
unsigned int conf_getMaxUserInfoLen (Conf& s) { return s.getMaxUserInfoLen (); }
unsigned int conf_getMaxNumberConfigs (Conf& s) { return s.getMaxNumberConfigs (); }

// all configurations
int all_open (All& s, const S& f, int fl, int m) { return s.open (f, fl, m); }
void all_new (const std::vector<int>& c) { All s (c); }
void all_newNamed (const std::vector<int>& c, const VS& n) { All s (c, n); }
int all_close (All& s) { return s.close (); }
int all_get (All& s, const UKey& k, VD& d) { return s.get (k, d); }
int all_getFromStringKey (All& s, const S& k, VD& d) { return s.getFromStringKey (k, d); }
int all_getBinaryData (All& s, const S& k, VS& d) { return s.getBinaryData (k, d); }
int all_insert (All& s, const UKey& k, const VD& d) { return s.insert (k, d); }
int all_insertWithStringKey (All& s, const S& k, const VD& d) { return s.insertWithStringKey (k, d); }
int all_insertBinaryData (All& s, const S& k, const VS& d) { return s.insertBinaryData (k, d); }
int all_update (All& s, const UKey& k, const UDat& d, int c, int i) { return s.update (k, d, c, i); }
bool all_exist (All& s, const UKey& k) { return s.exist (k); }
void all_stringKeysAndData (All& s, VS& k, std::vector<VD>& d) { s.stringKeysAndData (k, d); }
void all_keysAndData (All& s, VK& k, std::vector<VD>& d) { s.keysAndData (k, d); }
void all_binaryKeysAndData (All& s, VS& k, VS& d) { s.binaryKeysAndData (k, d); }
void all_flush (All& s) { s.flush (); }
int all_setConfigInfo (All& s, const ConfigInfo& c) { return s.setConfigInfo (c); }
int all_getConfigInfo (All& s, unsigned int n, ConfigInfo& c) { return s.getConfigInfo (n, c); }
int all_getAllConfigInfo (All& s, std::vector<ConfigInfo>& c) { return s.getAllConfigInfo (c); }
int all_insertUserdata (All& s, const S& d) { return s.insertUserdata (d); }
int all_getUserdata (All& s, S& d) { return s.getUserdata (d); }
void all_begin (All& s) { All::key_iterator it = s.begin (); }
void all_beginAssign (All& s) { All::key_iterator a = s.begin (), b = s.begin (); a = b; }
void all_beginCopy (All& s) { All::key_iterator a = s.begin (), b (a); b = a; }
void all_next (All::key_iterator& it) { ++it; }
void all_nextPost (All::key_iterator& it) { it++; }

// stores of any kind
int simple_open (Simple& s, const S& f, int fl, int m) { return s.open (f, fl, m); }
int simple_close (Simple& s) { return s.close (); }
int simple_insert (Simple& s, const UKey& k, const UDat& d) { return s.insert (k, d); }
int simple_get (Simple& s, const UKey& k, UDat& d) { return s.get (k, d); }
bool simple_exist (Simple& s, const UKey& k) { return s.exist (k); }
void simple_keys (Simple& s, VK& k) { s.keys<UKey, UDat> (k); }
void simple_keysAndData (Simple& s, VK& k, VD& d) { s.keysAndData (k, d); }
void simple_flush (Simple& s) { s.flush (); }
int simple_insertUserdata (Simple& s, const S& d) { return s.insertUserdata (d); }
int simple_getUserdata (Simple& s, S& d) { return s.getUserdata (d); }
unsigned int simple_getMaxUserInfoLen (Simple& s) { return s.getMaxUserInfoLen (); }
unsigned int simple_getMaxNumberConfigs (Simple& s) { return s.getMaxNumberConfigs (); }

// several stores
int mconf_open (MConf& s, const VS& f) { return s.open (f); }
int mconf_close (MConf& s) { return s.close (); }
int mconf_get (MConf& s, const UKey& k, UDat& d) { return s.get (k, d); }
int mconf_getBinary (MConf& s, const S& k, S& d) { return s.getBinary (k, d); }
bool mconf_exist (MConf& s, const UKey& k) { return s.exist (k); }
void mconf_keys (MConf& s, VK& k) { s.keys (k); }
int mconf_getUserdata (MConf& s, S& d) { return s.getUserdata (d); }
unsigned int mconf_getMaxNumberConfigs (MConf& s) { return s.getMaxNumberConfigs (); }
unsigned int mall_getMaxNumberConfigs (MAll& s) { return s.getMaxNumberConfigs (); }
int mall_open (MAll& s, const VS& f) { return s.open (f); }
int mall_close (MAll& s) { return s.close (); }
int mall_get (MAll& s, const UKey& k, VD& d) { return s.get (k, d); }
bool mall_exist (MAll& s, const UKey& k) { return s.exist (k); }
int mall_getUserdata (MAll& s, S& d) { return s.getUserdata (d); }

// merge
void merge_all (Merger& m) { m.merge (); }
}
