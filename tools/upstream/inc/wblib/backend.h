#pragma once
#include <wblib/testing/fake_mqtt.h>
