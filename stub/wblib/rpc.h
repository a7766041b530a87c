// Stand-in for libwbmqtt1: RPC server over MQTT. Calls are delivered by Call().
#pragma once
#include "declarations.h"
#include "json_utils.h"
#include <functional>
#include <map>
#include <mutex>
#include <string>

namespace WBMQTT
{
    enum TMqttRpcErrorCode
    {
        E_RPC_PARSE_ERROR = -32700,
        E_RPC_INVALID_REQUEST = -32600,
        E_RPC_METHOD_NOT_FOUND = -32601,
        E_RPC_INVALID_PARAMS = -32602,
        E_RPC_REQUEST_TIMEOUT = -32100,
        E_RPC_SERVER_ERROR = -32000
    };

    struct TMqttMessage
    {
        std::string Topic;
        std::string Payload;
        uint8_t Qos;
        bool Retained;
        TMqttMessage(const std::string& t, const std::string& p, uint8_t q, bool r)
            : Topic(t), Payload(p), Qos(q), Retained(r)
        {}
    };

    class TMqttClient
    {
    public:
        std::vector<TMqttMessage> Messages;
        std::mutex Mutex;
        std::function<void(const TMqttMessage&)> OnPublish;
        virtual ~TMqttClient() = default;
        virtual void Publish(const TMqttMessage& m)
        {
            std::unique_lock<std::mutex> lock(Mutex);
            if (OnPublish) {
                OnPublish(m);
            }
            Messages.push_back(m);
        }
        void Start() {}
        void Stop() {}
    };

    class TMqttRpcServer
    {
    public:
        using TResultCallback = std::function<void(const Json::Value&)>;
        using TErrorCallback = std::function<void(int, const std::string&)>;
        using TMethodHandler = std::function<Json::Value(const Json::Value&)>;
        using TAsyncMethodHandler = std::function<void(const Json::Value&, TResultCallback, TErrorCallback)>;

        std::map<std::string, TAsyncMethodHandler> Methods;

        virtual ~TMqttRpcServer() = default;
        virtual void RegisterMethod(const std::string& service, const std::string& method, TMethodHandler h)
        {
            Methods[service + "/" + method] =
                [h](const Json::Value& req, TResultCallback onResult, TErrorCallback onError) {
                    Json::Value res;
                    try {
                        res = h(req);
                    } catch (const std::exception& e) {
                        onError(E_RPC_SERVER_ERROR, e.what());
                        return;
                    }
                    onResult(res);
                };
        }
        virtual void RegisterAsyncMethod(const std::string& service, const std::string& method, TAsyncMethodHandler h)
        {
            Methods[service + "/" + method] = h;
        }
        virtual void Start() {}
        virtual void Stop() {}
        void Call(const std::string& name, const Json::Value& req, TResultCallback r, TErrorCallback e)
        {
            try {
                Methods.at(name)(req, r, e);
            } catch (const std::exception& ex) {
                e(E_RPC_SERVER_ERROR, ex.what());
            }
        }
    };
}
