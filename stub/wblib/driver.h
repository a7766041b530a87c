// Stand-in for libwbmqtt1: device driver. Records everything that would be published.
#pragma once
#include "declarations.h"
#include "driver_args.h"
#include "log.h"
#include "utils.h"
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>

namespace WBMQTT
{
    template<class T> class TFuture
    {
        T Value;

    public:
        explicit TFuture(T v): Value(std::move(v))
        {}
        T GetValue()
        {
            return Value;
        }
        void Sync()
        {}
        void Wait()
        {}
    };
    template<> class TFuture<void>
    {
    public:
        void Sync()
        {}
        void Wait()
        {}
    };

    //! One publication
    struct TPublication
    {
        std::string Device;
        std::string Control; //!< empty: the device itself
        bool HasValue = false;
        std::string Value;
        bool HasError = false;
        std::string Error;
    };

    class TDevice: public std::enable_shared_from_this<TDevice>
    {
    public:
        virtual ~TDevice() = default;
        virtual const std::string& GetId() const = 0;
    };

    class TControl
    {
        friend class TLocalDevice;

    public:
        TControlArgs Args;
        TDeviceDriver* Driver;
        std::weak_ptr<TDevice> Device;
        std::string RawValue, Err;

        TControl(const TControlArgs& args, TDeviceDriver* d, std::weak_ptr<TDevice> dev)
            : Args(args),
              Driver(d),
              Device(dev)
        {}
        const std::string& GetId() const
        {
            return Args.Id;
        }
        PDevice GetDevice() const
        {
            return Device.lock();
        }
        const TAny& GetUserData() const
        {
            return Args.UserData;
        }
        TFuture<void> UpdateRawValueAndError(const PDriverTx& tx, const std::string& value, const std::string& error);
        TFuture<void> SetError(const PDriverTx& tx, const std::string& error);
    };

    class TLocalDevice: public TDevice
    {
    public:
        TLocalDeviceArgs Args;
        TDeviceDriver* Driver;
        std::map<std::string, PControl> Controls;

        TLocalDevice(const TLocalDeviceArgs& args, TDeviceDriver* d): Args(args), Driver(d)
        {}
        const std::string& GetId() const override
        {
            return Args.Id;
        }
        TFuture<PControl> CreateControl(const PDriverTx&, const TControlArgs& args)
        {
            auto c = std::make_shared<TControl>(args, Driver, weak_from_this());
            Controls[args.Id] = c;
            return TFuture<PControl>(c);
        }
        TFuture<void> RemoveUnusedControls(const PDriverTx&)
        {
            return {};
        }
        TFuture<void> SetError(const PDriverTx& tx, const std::string& error);
    };

    struct TControlOnValueEvent
    {
        PControl Control;
        std::string RawValue;
    };

    class TDriverTx
    {
    public:
        TDeviceDriver* Driver;
        explicit TDriverTx(TDeviceDriver* d): Driver(d)
        {}
        TFuture<PLocalDevice> CreateDevice(const TLocalDeviceArgs& args);
        PDevice GetDevice(const std::string& id);
        TFuture<void> RemoveDeviceById(const std::string& id);
    };

    class TDeviceDriver
    {
    public:
        std::map<std::string, PLocalDevice> Devices;
        std::vector<TPublication> Log;
        std::function<void(const TPublication&)> OnPublish;
        std::vector<std::function<void(const TControlOnValueEvent&)>> OnValueHandlers;
        std::mutex LogMutex;
        std::mutex LoopMutex;
        std::set<std::string> Removed;

        PDriverTx BeginTx()
        {
            return std::make_shared<TDriverTx>(this);
        }
        template<class E, class F> int On(F f)
        {
            OnValueHandlers.push_back(f);
            return OnValueHandlers.size();
        }
        void Add(TPublication p)
        {
            std::lock_guard<std::mutex> lg(LogMutex);
            if (OnPublish) {
                OnPublish(p);
            }
            Log.push_back(std::move(p));
        }
        //! A message in the /on topic of a control
        void Command(const std::string& device, const std::string& control, const std::string& value)
        {
            // the thread of the driver handles messages and removes devices
            std::lock_guard<std::mutex> lg(LoopMutex);
            if (Removed.count(device)) {
                return;
            }
            TControlOnValueEvent ev{Devices.at(device)->Controls.at(control), value};
            for (auto& h: OnValueHandlers) {
                h(ev);
            }
        }
        void StartLoop() {}
        void StopLoop() {}
        void Close() {}
        void WaitForReady() {}
    };

    inline TFuture<void> TControl::UpdateRawValueAndError(const PDriverTx&,
                                                          const std::string& value,
                                                          const std::string& error)
    {
        RawValue = value;
        Err = error;
        Driver->Add({GetDevice()->GetId(), Args.Id, true, value, true, error});
        return {};
    }
    inline TFuture<void> TControl::SetError(const PDriverTx&, const std::string& error)
    {
        Err = error;
        Driver->Add({GetDevice()->GetId(), Args.Id, false, "", true, error});
        return {};
    }
    inline TFuture<void> TLocalDevice::SetError(const PDriverTx&, const std::string& error)
    {
        Driver->Add({Args.Id, "", false, "", true, error});
        return {};
    }
    inline TFuture<PLocalDevice> TDriverTx::CreateDevice(const TLocalDeviceArgs& args)
    {
        auto d = std::make_shared<TLocalDevice>(args, Driver);
        Driver->Removed.erase(args.Id);
        Driver->Devices[args.Id] = d;
        return TFuture<PLocalDevice>(d);
    }
    inline PDevice TDriverTx::GetDevice(const std::string& id)
    {
        auto it = Driver->Devices.find(id);
        return it == Driver->Devices.end() ? nullptr : it->second;
    }
    inline TFuture<void> TDriverTx::RemoveDeviceById(const std::string& id)
    {
        std::lock_guard<std::mutex> lg(Driver->LoopMutex);
        Driver->Removed.insert(id);
        Driver->Devices.erase(id);
        return {};
    }
}
