#pragma once
#include <wblib/testing/testlog.h>
namespace WBMQTT { 
struct TDriverArgs{ TDriverArgs& SetId(std::string){return *this;} template<class T>TDriverArgs& SetBackend(T){return *this;} TDriverArgs& SetIsTesting(bool){return *this;} TDriverArgs& SetReownUnknownDevices(bool){return *this;} TDriverArgs& SetUseStorage(bool){return *this;} TDriverArgs& SetStoragePath(std::string){return *this;} };
inline PDeviceDriver NewDriver(TDriverArgs){return std::make_shared<TDeviceDriver>();}
template<class T> int NewDriverBackend(T){return 0;}
template<class T> struct TPromise{ bool IsFulfilled(){return true;} void Complete(){} TFuture<void> GetFuture(){return {};} };
namespace Testing { struct TFakeMqttClient{ void Start(){} template<class...A> void Publish(A...){} template<class...A> void Subscribe(A...){}}; typedef std::shared_ptr<TFakeMqttClient> PFakeMqttClient;
struct TFakeMqttBroker{ TFuture<void> WaitForPublish(std::string){return {};}  PFakeMqttClient MakeClient(std::string){return std::make_shared<TFakeMqttClient>();} void Publish(std::string, std::vector<TMqttMessage>){} template<class...A> void SetReadOnly(A...){} template<class...A> void SetRetain(A...){} }; typedef std::shared_ptr<TFakeMqttBroker> PFakeMqttBroker;
template<class T> PFakeMqttBroker NewFakeMqttBroker(T&){return std::make_shared<TFakeMqttBroker>();}
}}
