#pragma once
#include <gtest/gtest.h>
#include <gmock/gmock.h>
#include <wblib/wbmqtt.h>
#include <wblib/utils.h>
#include <wblib/json_utils.h>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <functional>
#include <map>
#include <iostream>
#include <unistd.h>
namespace WBMQTT { namespace Testing {
inline std::string GetDataFilePath(const std::string& p){ return "/repo/test/"+p; }
inline std::string SetDataDir(const std::string&){return "";}
struct TLine { std::stringstream s; std::string* out; const char* prefix="";
 TLine(std::string*o,const char*p=""):out(o){s<<p;} TLine(TLine&&o)=default;
 ~TLine(){ if(out){ *out += s.str()+"\n"; } }
 template<class T> TLine& operator<<(const T& t){ s<<t; return *this; }
 TLine& operator<<(const std::vector<uint8_t>& v){ bool f=true; for(auto c:v){ if(!f) s<<' '; f=false; char b[4]; snprintf(b,4,"%02X",c); s<<b;} return *this; }
};
class TLoggedFixture: public ::testing::Test { public: enum TMode{E_Normal,E_Unordered};
 std::string Contents; int Ind=0; 
 TLine Emit(){ TLine l(&Contents); l.s<<std::string(Ind,' '); return l;} TLine Note(){ return TLine(&Contents, ">>> "); }
 void SetMode(TMode){} 
 static std::string GetDataFilePath(const std::string&p){return "/repo/test/"+p;}
 static void SetExecutableName(const std::string&){}
 void SetUp() override {}
 void TearDown() override {
  auto i=::testing::UnitTest::GetInstance()->current_test_info();
  std::string n=std::string("/repo/test/")+i->test_suite_name()+"."+i->name()+".dat";
  std::ifstream f(n); std::stringstream ss; ss<<f.rdbuf();
  if(!f.good() && Contents.empty()) return;
  auto flt=[](const std::string& a){ std::stringstream i(a); std::string l,r; while(std::getline(i,l)){ if(l.rfind("Publish: ",0)==0||l.rfind("Subscribe: ",0)==0||l.rfind("Unsubscribe",0)==0||l.rfind("(retain)",0)==0||l.rfind("stop:",0)==0||l.rfind("->",0)==0||l.rfind("start:",0)==0) continue; r+=l+"\n";} return r; };
  if(flt(ss.str())!=flt(Contents)){ std::string o=std::string("/tmp/ut/out/")+i->test_suite_name()+"."+i->name()+".dat"; std::ofstream(o)<<Contents; ADD_FAILURE()<<"log differs "<<n<<" "<<o; }
 }
};
struct TTestLogIndent{ TLoggedFixture&f; TTestLogIndent(TLoggedFixture&x):f(x){f.Ind+=4;} ~TTestLogIndent(){f.Ind-=4;} };
}}
namespace WBMQTT{namespace Testing{
inline bool ArraysMatch(const std::vector<uint8_t>&a,const std::vector<uint8_t>&b){return a==b;}
inline bool JsonsMatch(const Json::Value&a,const Json::Value&b){return a==b;}
using WBMQTT::HexDump;
}}
