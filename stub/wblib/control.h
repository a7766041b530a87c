#pragma once
#include "driver.h"
