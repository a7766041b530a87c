#include <wblib/testing/testlog.h>
#include <gtest/gtest.h>

int main(int c,char**v){ ::testing::InitGoogleTest(&c,v); chdir("/repo/test"); return RUN_ALL_TESTS(); }
