// Helpers of demonstrations
#pragma once
#include "sim.h"
#include <cstdio>
#include <cstdlib>
using namespace sim;

#define EXPECT(c, ...)                                                                                                  \
    do {                                                                                                                \
        if (!(c)) {                                                                                                     \
            printf("BROKEN: " __VA_ARGS__);                                                                             \
            printf("\n");                                                                                               \
            fflush(stdout);                                                                                             \
            _Exit(1);                                                                                                   \
        }                                                                                                               \
    } while (0)

//! What MQTT shows
struct Shown
{
    std::map<std::string, std::string> value, error;
    std::vector<WBMQTT::TPublication> log;
    Shown(World& w)
    {
        w.mqtt->OnPublish = [this](const WBMQTT::TPublication& p) {
            log.push_back(p);
            if (p.HasValue) {
                value[p.Device + "/" + p.Control] = p.Value;
            }
            if (p.HasError) {
                error[p.Device + "/" + p.Control] = p.Error;
            }
        };
    }
};
