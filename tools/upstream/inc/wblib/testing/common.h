#pragma once
#include <wblib/testing/testlog.h>
