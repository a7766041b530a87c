#pragma once
#include "declarations.h"
#include "driver.h"
#include "driver_args.h"
#include "exceptions.h"
#include "json_utils.h"
#include "log.h"
#include "rpc.h"
#include "utils.h"
