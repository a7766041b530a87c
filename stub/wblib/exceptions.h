// Stand-in for libwbmqtt1 (not installable here): exceptions
#pragma once
#include <exception>
#include <sstream>
#include <stdexcept>
#include <string>

namespace WBMQTT
{
    class TBaseException: public std::exception
    {
        std::string Message;

    public:
        TBaseException(const char* file, int line, const std::string& message): Message(message)
        {}
        const char* what() const noexcept override
        {
            return Message.c_str();
        }
    };
}

#define wb_throw(type, ...) throw type(__FILE__, __LINE__, __VA_ARGS__)
