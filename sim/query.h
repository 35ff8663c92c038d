// Random queries with the meaning the manual gives them, as three-valued predicates.
#pragma once
#include "exec.h"
struct RQuery { vector<string> args; string text;
  std::function<int(const Live&)> pred;       // 1: must match, 0: must not match, -1: the manual leaves it open
};
// kinds: bit set of QK_*
enum { QK_WORD=1, QK_DATE=2, QK_SIZE=4, QK_FLAG=8, QK_PATH=16, QK_MSGID=32, QK_ALL=63 };
RQuery random_query(Exec&x,Rng&r,int kinds=QK_ALL,int maxargs=3);
i64 civil(i64 y,int m,int d);                 // day number of a date, 1970-01-01 is 0
void uncivil(i64 day,i64&y,int&m,int&d);
extern const char*const TZS[]; extern const int NTZ;
void use_tz(int i);
// runs the query and compares
void check_query(Exec&x,const RQuery&q,const string&cls);
