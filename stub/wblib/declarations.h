// Stand-in for libwbmqtt1: forward declarations
#pragma once
#include <memory>
namespace WBMQTT
{
    class TDeviceDriver;
    class TDriverTx;
    class TDevice;
    class TLocalDevice;
    class TControl;
    class TMqttRpcServer;
    class TMqttClient;
    struct TControlOnValueEvent;
    using PDeviceDriver = std::shared_ptr<TDeviceDriver>;
    using PDriverTx = std::shared_ptr<TDriverTx>;
    using PDevice = std::shared_ptr<TDevice>;
    using PLocalDevice = std::shared_ptr<TLocalDevice>;
    using PControl = std::shared_ptr<TControl>;
    using PMqttRpcServer = std::shared_ptr<TMqttRpcServer>;
    using PMqttClient = std::shared_ptr<TMqttClient>;
}
