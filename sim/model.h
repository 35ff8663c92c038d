// Executable reference model: messages with the token sets they must be found by, mail folders, queries.
#pragma once
#include "core.h"
enum Fld { TO=0, CC, FROM, SUBJ, BODY, ATT, NFLD };
struct Msg {
  int id=0; string raw;                 // text without any mbox separator, LF line ends
  set<string> tok[NFLD];
  set<string> mids;                     // Message-IDs (without <>), lower case
  set<string> ids;                      // every identifier linking it to a conversation, lower case
  i64 date=0;                           // as indexed: midnight of the Date header (0: none, -1: unparsable)
  int hs=0,hr=0,hf=0;                   // flags from Status / X-Status
  string uniq;                          // a subject word only this message has
  string msgid; bool bad=false, nobody=false;         // bad: mairix must skip it (headers not parsable)
  string hfrom,hto,hcc,hsubj,hdate;     // plain header values when simple (for excerpts)
};
typedef std::shared_ptr<Msg> MP_;
enum FType { MD=0, MH, MBOX, MMDF, GZ, BZ, XZ, IMAP_ };
struct Item { MP_ m; string file; int s=0,r=0,f=0; string fromline; string extra; size_t start=0,len=0; unsigned uid=0; u64 key=0; };
struct Folder { string path, name; int type=MD; vector<Item> items; bool listed=true, omitted=false; /* omitted: named in the configuration but excluded by omit= */ int next=1; string mhmark; string tail; bool chop=false; /* the last line of the mbox lacks its newline */ vector<vector<std::pair<size_t,string>>> snaps; /* what index runs may have seen of an mbox: offset, text */ };
struct Live { string loc, path; MP_ m; int s,r,f; i64 size; bool mbox; bool imap; size_t start,len; bool isnew; };  // one message as the index must know it
struct MsgOpts { int huge=0; int hotid=0; int variety=2; int bigwords=0; int bodywords=8; bool simple=false; bool crlf=false; };
struct Model {
  vector<Folder> fo; int nextid=1; vector<string> vocab; vector<MP_> all; u64 vseed=1; string bound; bool hashuge=false; vector<string> idpool;
  int badpct=0; /* share of mbox messages whose headers cannot be parsed */ MP_ mkbad(Rng&r); i64 epoch=0, past=0; set<string> kept; // kept: files changed without a new modification time since the last index run
  MP_ variant(MP_ m);                   // another message of the same size
  void initvocab(u64 seed,int n);
  MP_ mkmsg(Rng&r,const MsgOpts&o,i64 now,const vector<string>*threadids=nullptr);
  Folder*get(const string&name);
  // store manipulation on W
  void create(Folder&f);
  void add(Folder&f,MP_ m,Rng&r,const string&fname="");
  void removeItem(Folder&f,size_t k);
  void rewrite(Folder&f);               // regenerate an mbox-like file from its items
  vector<Live> live(bool listedonly=true);
  static string mboxbytes(Folder&f);
  void settle(Rng&r);                   // keep to mairix's documented mbox assumption: an unchanged message means unchanged predecessors
  void seen(bool ok);                   // an index run has looked at the folders
};
string lower(string s);
void words(const string&text,set<string>&out);        // [alnum_]+
void addrs(const string&text,set<string>&out);        // words and whole addresses
string b64(const string&s); string compress_(int type,const string&d);
// queries
struct Term { string text; };
struct Query { vector<string> args; std::function<bool(const Live&)> pred; string desc; };
bool within(const string&pat,const string&text,int maxerr,bool leftanch); // approximate substring
