// src/devices/dlms_device.cpp needs gurux, which is absent: the protocol is left out
#include "devices/dlms_device.h"
void TDlmsDevice::Register(TSerialDeviceFactory&)
{}
void DLMS::PrintDeviceTemplateGenerationOptionsUsage()
{}
void DLMS::GenerateDeviceTemplate(TDeviceTemplateGenerationMode, PPort, const std::string&, const std::string&, const std::vector<std::string>&)
{}
