From ca2ef0bf14fd6e27e450e5c65820b4136c3eafac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 01/82] fix: decode a stuffed byte at the very end of data

DecodeByteStuffing left an escape sequence occupying the last bytes of the
data undecoded, so it did not invert ApplyByteStuffing.
---
 src/bin_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_utils.cpp b/src/bin_utils.cpp
index b82cc30..b156a57 100644
--- a/src/bin_utils.cpp
+++ b/src/bin_utils.cpp
@@ -20,7 +20,7 @@ void BinUtils::DecodeByteStuffing(std::vector<uint8_t>& data,
             if (rule.second.empty()) {
                 throw std::invalid_argument("invalid byte stuffing rule");
             }
-            if ((static_cast<size_t>(data.end() - readIt) > rule.second.size()) &&
+            if ((static_cast<size_t>(data.end() - readIt) >= rule.second.size()) &&
                 std::equal(rule.second.begin(), rule.second.end(), readIt))
             {
                 *writeIt = rule.first;
-- 
2.43.0


From ef074b8ad196bcb47aabce25d0260aa1073fdca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 02/82] fix: don't reschedule polling of unavailable registers

An unavailable register without a value was put to the schedule again and
again. If there was nothing else to read from the device, the device stayed
on top of the queue and blocked polling of all other devices of the port.
---
 src/pollable_device.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index 057d43b..2d4f411 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -145,7 +145,9 @@ void TPollableDevice::ScheduleNextPoll(PRegister reg, std::chrono::steady_clock:
     if (reg->IsExcludedFromPolling()) {
         // If register is sporadic it must be read once to get actual value
         // Keep polling it until successful read
-        if (reg->GetValue().GetType() == TRegisterValue::ValueType::Undefined) {
+        if (reg->GetAvailable() != TRegisterAvailability::UNAVAILABLE &&
+            reg->GetValue().GetType() == TRegisterValue::ValueType::Undefined)
+        {
             Registers.AddEntry(reg, currentTime + std::chrono::microseconds(1));
         }
         return;
-- 
2.43.0


From f6d472d020ae5259d2e34aa9aa8b9a7d31258e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 03/82] fix: count only failed cycles before closing a port

---
 src/port/port.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/port/port.cpp b/src/port/port.cpp
index 1af3987..6d16819 100644
--- a/src/port/port.cpp
+++ b/src/port/port.cpp
@@ -85,6 +85,7 @@ void TPortOpenCloseLogic::CloseIfNeeded(PPort port, bool allPreviousDataExchange
     if (!allPreviousDataExchangeWasFailed) {
         LastSuccessfulCycle = currentTime;
         RemainingFailCycles = Settings.ConnectionMaxFailCycles;
+        return;
     }
 
     if (RemainingFailCycles > 0) {
-- 
2.43.0


From a31855e335cce17b06dc91da2c30dd2695ce37ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 04/82] fix: take register shift into account when reading
 partial setup registers

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 716feb2..be75d27 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -845,7 +845,7 @@ namespace Modbus // modbus protocol common utilities
                 }
                 ++it;
             }
-            ReadRegisterRange(traits, port, slaveId, range, cache, shift);
+            ReadRegisterRange(traits, port, slaveId, range, cache, false, shift);
             for (auto reg: range.RegisterList()) {
                 if (reg->GetErrorState().count()) {
                     return false;
-- 
2.43.0


From b2a709c28268f50dcf999881e84a4217aa9a09ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 05/82] fix: write setup registers preceding a partial one

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index be75d27..fe6b0e7 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -877,7 +877,7 @@ namespace Modbus // modbus protocol common utilities
         while (startIt != endIt) {
             auto item = *startIt;
             if (item->RegisterConfig->IsPartial()) {
-                return startIt;
+                break;
             }
 
             auto address = GetUint32RegisterAddress(item->RegisterConfig->GetWriteAddress());
-- 
2.43.0


From 27c83c4c01e99bb79a82fca9ae5771b4109507e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 06/82] fix: write setup again if it failed after reading of
 partial registers

---
 src/modbus_common.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index fe6b0e7..506de49 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -641,7 +641,6 @@ namespace Modbus // modbus protocol common utilities
                            Modbus::TRegisterCache& cache)
     {
         auto data = Modbus::ExtractResponseData(function, pdu);
-        range.Device()->SetTransferResult(true);
         if (IsSingleBitType(range.Type())) {
             ParseSingleBitReadResponse(data, range);
             return;
@@ -786,6 +785,7 @@ namespace Modbus // modbus protocol common utilities
         }
         try {
             range.ReadRange(traits, port, slaveId, shift, cache);
+            range.Device()->SetTransferResult(true);
         } catch (const TSerialDevicePermanentRegisterException& e) {
             if (range.HasHoles()) {
                 range.Device()->SetSupportsHoles(false);
@@ -845,11 +845,19 @@ namespace Modbus // modbus protocol common utilities
                 }
                 ++it;
             }
-            ReadRegisterRange(traits, port, slaveId, range, cache, false, shift);
-            for (auto reg: range.RegisterList()) {
-                if (reg->GetErrorState().count()) {
-                    return false;
+            if (range.RegisterList().empty()) {
+                continue;
+            }
+            // Don't use ReadRegisterRange here. It changes the state of the device to connected after a successful
+            // read and the setup will not be written again if writing of its items fails.
+            try {
+                range.ReadRange(traits, port, slaveId, shift, cache);
+            } catch (const TSerialDeviceException& e) {
+                LOG(Warn) << "failed to read " << range << ": " << e.what();
+                if (range.HasHoles() && dynamic_cast<const TSerialDevicePermanentRegisterException*>(&e)) {
+                    range.Device()->SetSupportsHoles(false);
                 }
+                return false;
             }
         }
         return true;
-- 
2.43.0


From b92be9f64adfd6f859074618f4bc87ff0a022eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 07/82] fix: don't use outdated values of partial registers for
 setup

---
 src/modbus_common.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 506de49..f826f9b 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -816,6 +816,7 @@ namespace Modbus // modbus protocol common utilities
                                  Modbus::TRegisterCache& cache,
                                  int shift)
     {
+        // The cache can be out of date, for example, if the device has been restarted, so read all the registers
         auto it = setupItems.begin();
         while (it != setupItems.end()) {
             TModbusRegisterRange range(std::chrono::microseconds::max());
@@ -825,19 +826,6 @@ namespace Modbus // modbus protocol common utilities
                     ++it;
                     continue;
                 }
-                auto address = GetUint32RegisterAddress(item->RegisterConfig->GetAddress());
-                auto cached = true;
-                for (uint32_t i = 0; i < item->RegisterConfig->Get16BitWidth(); ++i) {
-                    if (cache.count(address) == 0) {
-                        cached = false;
-                        break;
-                    }
-                    ++address;
-                }
-                if (cached) {
-                    ++it;
-                    continue;
-                }
                 auto reg = std::make_shared<TRegister>(item->Device, item->RegisterConfig);
                 reg->SetAvailable(TRegisterAvailability::AVAILABLE);
                 if (!range.Add(port, reg, std::chrono::milliseconds::max())) {
-- 
2.43.0


From 74a97e880201fbe2b45fe4373948b070af78c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 08/82] fix: respect max_write_fail_time_s exactly, 0 means the
 only attempt

---
 src/register_handler.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index c8b0c98..223430b 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -34,9 +34,7 @@ void TRegisterHandler::HandleWriteErrorRetryWrite(const TRegisterValue& tempValu
             WriteFirstTryTime = steady_clock::now();
         }
         WriteFail = true;
-        if (duration_cast<seconds>(steady_clock::now() - WriteFirstTryTime) >
-            Reg->Device()->DeviceConfig()->MaxWriteFailTime)
-        {
+        if (steady_clock::now() - WriteFirstTryTime >= Reg->Device()->DeviceConfig()->MaxWriteFailTime) {
             Dirty = (tempValue != ValueToSet);
             WriteFail = false;
         }
@@ -81,9 +79,7 @@ bool TRegisterHandler::NeedRetryAfterWriteFail()
         WriteFirstTryTime = steady_clock::now();
         WriteFail = true;
     }
-    if (duration_cast<seconds>(steady_clock::now() - WriteFirstTryTime) >
-        Reg->Device()->DeviceConfig()->MaxWriteFailTime)
-    {
+    if (steady_clock::now() - WriteFirstTryTime >= Reg->Device()->DeviceConfig()->MaxWriteFailTime) {
         Dirty = false;
         WriteFail = false;
         return false;
-- 
2.43.0


From 0e21d56c1195311bd3ddd76885fb5161b6a2a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 09/82] fix: limit retries of writing to a device which can't
 be prepared

---
 src/write_channel_serial_client_task.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write_channel_serial_client_task.cpp b/src/write_channel_serial_client_task.cpp
index 3f1d4d7..914ebf2 100644
--- a/src/write_channel_serial_client_task.cpp
+++ b/src/write_channel_serial_client_task.cpp
@@ -48,6 +48,9 @@ ISerialClientTask::TRunResult TWriteChannelSerialClientTask::Run(PFeaturePort po
         Handler->Flush(*port);
     } else {
         Handler->Register()->SetError(TRegister::TError::WriteError);
+        if (!Handler->NeedRetryAfterWriteFail()) {
+            LOG(Warn) << Handler->Register()->ToString() << " register write cancelled: can't prepare device";
+        }
     }
     if (Handler->Register()->GetErrorState().test(TRegister::TError::WriteError)) {
         if (ErrorCallback) {
-- 
2.43.0


From 94cf6af83d62d067c20f10478afeb1fbaa555cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:53 +0000
Subject: [PATCH 10/82] fix: don't block polling by a device with unavailable
 registers only

A register can become unavailable while it waits for polling, for example by
an event with the unsupported value. If it is the only waiting register of the
device, the scheduler used to offer the device forever and nothing else was polled
---
 src/pollable_device.cpp               |  5 +++++
 src/pollable_device.h                 |  3 +++
 src/serial_client_register_poller.cpp | 11 ++++++++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index 2d4f411..22df3f9 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -123,6 +123,11 @@ bool TPollableDevice::HasRegisters() const
     return !Registers.IsEmpty();
 }
 
+bool TPollableDevice::HasReadyRegisters(std::chrono::steady_clock::time_point currentTime) const
+{
+    return Registers.HasReadyItems(currentTime);
+}
+
 void TPollableDevice::RescheduleAllRegisters()
 {
     for (const auto& reg: Device->GetRegisters()) {
diff --git a/src/pollable_device.h b/src/pollable_device.h
index 5ef6b1f..2bf0969 100644
--- a/src/pollable_device.h
+++ b/src/pollable_device.h
@@ -42,6 +42,9 @@ public:
 
     bool HasRegisters() const;
 
+    //! Returns true if there are registers waiting to be read
+    bool HasReadyRegisters(std::chrono::steady_clock::time_point currentTime) const;
+
     void RescheduleAllRegisters();
 };
 
diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 76ba24d..19071d1 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -56,7 +56,9 @@ namespace
             RegisterRange =
                 device->ReadRegisterRange(Port, pollLimit, ReadAtLeastOneRegister, SessionTime, LastAccessedDevice);
             Device = device;
-            return !RegisterRange->RegisterList().empty();
+            // All waiting registers of the device can turn out to be unavailable.
+            // Such a device must leave the queue or it will block reading of other devices
+            return !RegisterRange->RegisterList().empty() || !device->HasReadyRegisters(SessionTime.GetStartTime());
         }
 
         PRegisterRange GetRegisterRange() const
@@ -237,6 +239,13 @@ TPollResult TSerialClientRegisterPoller::OpenPortCycle(TFeaturePort& port,
         return res;
     }
 
+    if (range->RegisterList().empty() && !reader.GetDevice()->HasReadyRegisters(spentTime.GetStartTime())) {
+        // All waiting registers of the device are unavailable
+        ScheduleNextPoll(reader.GetDevice(), spentTime.GetStartTime());
+        res.Deadline = GetDeadline(lowPriorityRateLimitIsExceeded, spentTime);
+        return res;
+    }
+
     // There are registers waiting read, but they don't fit in allowed poll limit
     if (range->RegisterList().empty()) {
         res.NotEnoughTime = true;
-- 
2.43.0


From 04c7875bd4626050bee8201b86025bb4aa6daaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 11/82] fix: let a device without disconnection detection
 become connected

Devices with negative device_timeout_ms or device_max_fail_cycles never
left the unknown state, so their setup was written at every session, and after
suspending of poll or a reboot event they stayed disconnected forever, with
polling delayed up to 10 s, though they have to be always considered connected
---
 src/serial_device.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 4d7adb3..743ef85 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -205,16 +205,15 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
 
 void TSerialDevice::SetTransferResult(bool ok)
 {
-    // disable reconnect functionality option
-    if (_DeviceConfig->DeviceTimeout.count() < 0 || _DeviceConfig->DeviceMaxFailCycles < 0) {
-        return;
-    }
-
     if (ok) {
         LastSuccessfulCycle = std::chrono::steady_clock::now();
         SetConnectionState(TDeviceConnectionState::CONNECTED);
         RemainingFailCycles = _DeviceConfig->DeviceMaxFailCycles;
     } else {
+        // disable reconnect functionality option
+        if (_DeviceConfig->DeviceTimeout.count() < 0 || _DeviceConfig->DeviceMaxFailCycles < 0) {
+            return;
+        }
 
         if (RemainingFailCycles > 0) {
             --RemainingFailCycles;
-- 
2.43.0


From bcbe5d86b4f9fa3d782a853d0d3d65f3597c417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 12/82] fix: don't resume suspended polling after disconnection
 of the device

A device disconnected right before suspending waited for rescheduling,
so its polling was resumed at the next cycle
---
 src/serial_client_register_poller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 19071d1..38c8ab5 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -349,6 +349,10 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
 {
     std::unique_lock lock(Mutex);
     for (auto& device: DisconnectedDevicesWaitingForReschedule) {
+        // Poll could be suspended since disconnection, the device will be rescheduled on resume
+        if (DevicesWithSpendedPoll.find(device) != DevicesWithSpendedPoll.end()) {
+            continue;
+        }
         auto range = Devices.equal_range(device);
         for (auto it = range.first; it != range.second; ++it) {
             Scheduler.Remove(it->second);
-- 
2.43.0


From c2dce2c4b78bcb9f8a631b661b8bd21442240fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 13/82] fix: reject Modbus read responses without enough data

A response with fewer registers than requested (or an exception response
with zero code) was accepted and values were taken from memory behind
the received data.
---
 src/modbus_base.cpp   |  1 +
 src/modbus_common.cpp | 27 +++++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 591460f..ece3da2 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -422,6 +422,7 @@ std::vector<uint8_t> Modbus::ExtractResponseData(EFunction requestFunction, cons
 
     if (IsException(pdu[0])) {
         ThrowIfModbusException(pdu[1]);
+        throw Modbus::TMalformedResponseError("exception response with zero exception code");
     }
 
     auto function = GetFunction(functionCode);
diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index f826f9b..b206049 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -634,13 +634,36 @@ namespace Modbus // modbus protocol common utilities
                               : TRegisterValue{GetNumberRegisterValue(words, reg)};
     }
 
+    // Extracts data of a read response and checks that it has all the registers.
+    std::vector<uint8_t> ExtractReadResponseData(Modbus::EFunction function,
+                                                 const std::vector<uint8_t>& pdu,
+                                                 size_t registerCount)
+    {
+        auto data = Modbus::ExtractResponseData(function, pdu);
+        // Response PDU has function code and byte count before data
+        auto minSize = Modbus::CalcResponsePDUSize(function, registerCount) - 2;
+        if (data.size() < minSize) {
+            throw Modbus::TMalformedResponseError("not enough data in read response: " + std::to_string(data.size()) +
+                                                  " bytes, expected at least " + std::to_string(minSize));
+        }
+        return data;
+    }
+
     // Parses modbus response and stores result.
     void ParseReadResponse(const std::vector<uint8_t>& pdu,
                            Modbus::EFunction function,
                            TModbusRegisterRange& range,
                            Modbus::TRegisterCache& cache)
     {
-        auto data = Modbus::ExtractResponseData(function, pdu);
+        // The range can be longer than registers because of MinReadRegisters
+        auto start = range.GetStart();
+        auto end = start;
+        for (auto reg: range.RegisterList()) {
+            const auto& config = *reg->GetConfig();
+            end = std::max(end,
+                           GetUint32RegisterAddress(config.GetAddress()) + GetModbusDataWidthIn16BitWords(config));
+        }
+        auto data = ExtractReadResponseData(function, pdu, end - start);
         if (IsSingleBitType(range.Type())) {
             ParseSingleBitReadResponse(data, range);
             return;
@@ -1068,7 +1091,7 @@ namespace Modbus // modbus protocol common utilities
                                       responseTimeout,
                                       frameTimeout);
 
-        auto data = Modbus::ExtractResponseData(function, res.Pdu);
+        auto data = ExtractReadResponseData(function, res.Pdu, modbusRegisterCount);
         if (IsSingleBitType(reg.Type)) {
             return TRegisterValue{data[0]};
         }
-- 
2.43.0


From 39a4c7ebd61c53912c54fb1493e2135e7ea66364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 14/82] fix: don't change neighbour bits by writing a too big
 value

A value wider than its bits of a Modbus register overwrote the bits of other
controls if the register is written by function 16.
---
 src/modbus_common.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index b206049..4af9ab7 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -465,9 +465,8 @@ namespace Modbus // modbus protocol common utilities
             updateCache = true;
         }
 
-        // Place data
-        value <<= reg.GetDataOffset();
-        valueToWrite |= value;
+        // Place data. Value can be wider than place for it
+        valueToWrite |= (value & GetLSBMask(reg.GetDataWidth())) << reg.GetDataOffset();
 
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-- 
2.43.0


From 07d81eeedae19d10f8cc4d5a295f369a3339f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 15/82] fix: write non ASCII characters of strings to Modbus
 registers correctly

Negative chars were sign extended, so the second character of a register
overwrote the first one.
---
 src/modbus_common.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 4af9ab7..1a96038 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -426,7 +426,9 @@ namespace Modbus // modbus protocol common utilities
         auto width = std::min(GetModbusDataWidthIn16BitWords(reg), static_cast<uint32_t>(size));
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-            words[i] = reg.Format == RegisterFormat::String8 ? str[i * 2] << 8 | str[i * 2 + 1] : str[i];
+            words[i] = reg.Format == RegisterFormat::String8
+                           ? static_cast<uint8_t>(str[i * 2]) << 8 | static_cast<uint8_t>(str[i * 2 + 1])
+                           : static_cast<uint8_t>(str[i]);
         }
     }
 
-- 
2.43.0


From acf89215b459b7a6d39067423091107a9fd9552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 16/82] fix: keep neighbour bits when writing to a part of a
 Modbus register before its reading

Words shared by several controls were written with zeros (or outdated values
after reconnection) in the bits of the other controls if the words had not
been read yet.
---
 src/devices/modbus_device.cpp    |  7 +++-
 src/devices/modbus_device.h      |  1 +
 src/devices/modbus_io_device.cpp |  6 ++-
 src/devices/modbus_io_device.h   |  1 +
 src/modbus_common.cpp            | 70 +++++++++++++++++++++++++++++++-
 src/modbus_common.h              |  7 +++-
 6 files changed, 88 insertions(+), 4 deletions(-)

diff --git a/src/devices/modbus_device.cpp b/src/devices/modbus_device.cpp
index b4d3a4f..cfe8513 100644
--- a/src/devices/modbus_device.cpp
+++ b/src/devices/modbus_device.cpp
@@ -72,7 +72,10 @@ PRegisterRange TModbusDevice::CreateRegisterRange() const
 void TModbusDevice::PrepareImpl(TPort& port)
 {
     TSerialDevice::PrepareImpl(port);
+    IsPrepared = true;
     if (GetConnectionState() != TDeviceConnectionState::CONNECTED) {
+        // Registers could be changed while the device was not available
+        ModbusCache.clear();
         if (EnableWbContinuousRead) {
             ContinuousReadEnabled =
                 Modbus::EnableWbContinuousRead(shared_from_this(), *ModbusTraits, port, SlaveId, ModbusCache);
@@ -110,7 +113,9 @@ void TModbusDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, c
                           ModbusCache,
                           DeviceConfig()->RequestDelay,
                           GetResponseTimeout(port),
-                          GetFrameTimeout(port));
+                          GetFrameTimeout(port),
+                          0,
+                          IsPrepared);
 }
 
 void TModbusDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool breakOnError)
diff --git a/src/devices/modbus_device.h b/src/devices/modbus_device.h
index 840c235..4cfc2b1 100644
--- a/src/devices/modbus_device.h
+++ b/src/devices/modbus_device.h
@@ -56,6 +56,7 @@ class TModbusDevice: public TSerialDevice, public TUInt32SlaveId
 {
     std::unique_ptr<Modbus::IModbusTraits> ModbusTraits;
     Modbus::TRegisterCache ModbusCache;
+    bool IsPrepared = false;
     TRunningAverage<std::chrono::microseconds, 10> ResponseTime;
     bool EnableWbContinuousRead;
     bool ContinuousReadEnabled;
diff --git a/src/devices/modbus_io_device.cpp b/src/devices/modbus_io_device.cpp
index 866990f..522c6cb 100644
--- a/src/devices/modbus_io_device.cpp
+++ b/src/devices/modbus_io_device.cpp
@@ -70,7 +70,10 @@ PRegisterRange TModbusIODevice::CreateRegisterRange() const
 void TModbusIODevice::PrepareImpl(TPort& port)
 {
     TSerialDevice::PrepareImpl(port);
+    IsPrepared = true;
     if (GetConnectionState() != TDeviceConnectionState::CONNECTED) {
+        // Registers could be changed while the device was not available
+        ModbusCache.clear();
         Modbus::EnableWbContinuousRead(shared_from_this(), *ModbusTraits, port, SlaveId, ModbusCache);
     }
 }
@@ -86,7 +89,8 @@ void TModbusIODevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg,
                           DeviceConfig()->RequestDelay,
                           GetResponseTimeout(port),
                           GetFrameTimeout(port),
-                          Shift);
+                          Shift,
+                          IsPrepared);
 }
 
 void TModbusIODevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool breakOnError)
diff --git a/src/devices/modbus_io_device.h b/src/devices/modbus_io_device.h
index f9cc9c0..fb72ddf 100644
--- a/src/devices/modbus_io_device.h
+++ b/src/devices/modbus_io_device.h
@@ -13,6 +13,7 @@ class TModbusIODevice: public TSerialDevice, public TUInt32SlaveId
     std::unique_ptr<Modbus::IModbusTraits> ModbusTraits;
     int Shift = 0;
     Modbus::TRegisterCache ModbusCache;
+    bool IsPrepared = false;
     TRunningAverage<std::chrono::microseconds, 10> ResponseTime;
 
 public:
diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 1a96038..d113fd2 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -712,6 +712,61 @@ namespace Modbus // modbus protocol common utilities
         }
     }
 
+    // A register may share its words with other registers. If the words are still unknown, reads them to the cache to
+    // keep bits of the other registers unchanged during writing.
+    void ReadUnknownSharedWords(IModbusTraits& traits,
+                                TPort& port,
+                                uint8_t slaveId,
+                                const TRegisterConfig& reg,
+                                Modbus::TRegisterCache& cache,
+                                std::chrono::microseconds requestDelay,
+                                std::chrono::milliseconds responseTimeout,
+                                std::chrono::milliseconds frameTimeout,
+                                int shift)
+    {
+        auto count = GetModbusDataWidthIn16BitWords(reg);
+        if (!IsHoldingType(reg.Type) || reg.IsString() || reg.AccessType == TRegisterConfig::EAccessType::WRITE_ONLY ||
+            reg.GetDataWidth() >= count * 16)
+        {
+            return;
+        }
+        auto addr = GetUint32RegisterAddress(reg.GetAddress());
+        bool known = true;
+        for (uint32_t i = 0; i < count; ++i) {
+            known = known && cache.count(addr + i);
+        }
+        if (known) {
+            return;
+        }
+        try {
+            auto fn = GetFunctionImpl(reg.Type, OperationType::OP_READ, reg.TypeName, false);
+            port.SleepSinceLastInteraction(requestDelay);
+            auto res = traits.Transaction(port,
+                                          slaveId,
+                                          Modbus::MakePDU(fn, addr + shift, count, {}),
+                                          Modbus::CalcResponsePDUSize(fn, count),
+                                          responseTimeout,
+                                          frameTimeout);
+            GetRegisterValue(ExtractReadResponseData(fn, res.Pdu, count), reg, cache);
+        } catch (const Modbus::TModbusExceptionError& err) {
+            try {
+                RethrowSerialDeviceException(err);
+            } catch (const TSerialDevicePermanentRegisterException& e) {
+                // Reading is not possible at all, write without the other bits
+                LOG(Warn) << "failed to read words of <" << reg.ToString() << "> before writing: " << e.what();
+            }
+        } catch (const Modbus::TMalformedResponseError& err) {
+            try {
+                port.SkipNoise();
+            } catch (const std::exception& e) {
+                LOG(Warn) << "SkipNoise failed: " << e.what();
+            }
+            throw TSerialDeviceTransientErrorException(err.what());
+        } catch (const Modbus::TErrorBase& err) {
+            throw TSerialDeviceTransientErrorException(err.what());
+        }
+    }
+
     void WriteRegister(IModbusTraits& traits,
                        TPort& port,
                        uint8_t slaveId,
@@ -721,7 +776,8 @@ namespace Modbus // modbus protocol common utilities
                        std::chrono::microseconds requestDelay,
                        std::chrono::milliseconds responseTimeout,
                        std::chrono::milliseconds frameTimeout,
-                       int shift)
+                       int shift,
+                       bool readUnknownSharedWords)
     {
         Modbus::TRegisterCache tmpCache;
 
@@ -735,6 +791,18 @@ namespace Modbus // modbus protocol common utilities
             throw TSerialDeviceException("failed to write register <" + reg.ToString() + ">: " + e.what());
         }
 
+        if (readUnknownSharedWords) {
+            ReadUnknownSharedWords(traits,
+                                   port,
+                                   slaveId,
+                                   reg,
+                                   cache,
+                                   requestDelay,
+                                   responseTimeout,
+                                   frameTimeout,
+                                   shift);
+        }
+
         std::vector<uint8_t> data;
         auto addr = GetUint32RegisterAddress(reg.GetWriteAddress()) + shift;
         if (IsPacking(reg)) {
diff --git a/src/modbus_common.h b/src/modbus_common.h
index e4e39da..afeed2d 100644
--- a/src/modbus_common.h
+++ b/src/modbus_common.h
@@ -77,6 +77,10 @@ namespace Modbus // modbus protocol common utilities
 
     PRegisterRange CreateRegisterRange(std::chrono::microseconds averageResponseTime);
 
+    /**
+     * @param readUnknownSharedWords If the register occupies a part of its words and their contents are not in the
+     *                               cache, read the words before writing to keep the other bits unchanged.
+     */
     void WriteRegister(IModbusTraits& traits,
                        TPort& port,
                        uint8_t slaveId,
@@ -86,7 +90,8 @@ namespace Modbus // modbus protocol common utilities
                        std::chrono::microseconds requestDelay,
                        std::chrono::milliseconds responseTimeout,
                        std::chrono::milliseconds frameTimeout,
-                       int shift = 0);
+                       int shift = 0,
+                       bool readUnknownSharedWords = false);
 
     void ReadRegisterRange(IModbusTraits& traits,
                            TPort& port,
-- 
2.43.0


From 8ac323c1bc1102ceb239838993d3fc1d349d91f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 17/82] fix: don't wait for data on a closed port in SkipNoise

The remote side may close a TCP connection in the middle of a cycle, following requests end with an empty answer.
SkipNoise passed -1 to FD_SET then. It is an undefined behaviour, builds with _FORTIFY_SOURCE abort.
---
 src/port/file_descriptor_port.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index d8a3ed7..db80db0 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -211,6 +211,8 @@ TReadFrameResult TFileDescriptorPort::ReadFrame(uint8_t* buf,
 
 void TFileDescriptorPort::SkipNoise()
 {
+    CheckPortOpen();
+
     uint8_t buf[255] = {};
     auto start = std::chrono::steady_clock::now();
     int ntries = 0;
-- 
2.43.0


From 54f59373509fe9ba81ccc673d80a73fa262645ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 18/82] fix: wait for a pause of 3.5 characters in SkipNoise

A byte takes more than 1 ms at 9600 baud and slower. SkipNoise returned between bytes of a late or damaged answer,
and the rest of them was taken for the beginning of the next answer.
---
 src/port/file_descriptor_port.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index db80db0..b56847b 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -217,7 +217,10 @@ void TFileDescriptorPort::SkipNoise()
     auto start = std::chrono::steady_clock::now();
     int ntries = 0;
 
-    while (Select(NoiseTimeout)) {
+    // A byte can be longer than NoiseTimeout at low speeds, so wait for a pause between frames
+    auto timeout = std::max<std::chrono::microseconds>(NoiseTimeout, GetSendTimeBytes(3.5));
+
+    while (Select(timeout)) {
         size_t nread = ReadAvailableData(buf, sizeof(buf) / sizeof(buf[0]));
         auto diff = std::chrono::steady_clock::now() - start;
 
-- 
2.43.0


From f8d6f36f407a2bb72722ccc70219778e93c82ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 19/82] fix: endless recursion of SkipNoise and Open of a
 serial port during continuous noise

SkipNoise reopens the port, Open calls SkipNoise again and so on. The port thread hung in the recursion as long as the
noise lasted.
---
 src/port/file_descriptor_port.cpp | 13 ++++++++++++-
 src/port/file_descriptor_port.h   |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index b56847b..fdad3a5 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -233,9 +233,20 @@ void TFileDescriptorPort::SkipNoise()
             LastInteraction = std::chrono::steady_clock::now();
 
             if (diff > ContinuousNoiseTimeout) {
+                // Open() of some ports calls SkipNoise, the decision is up to the SkipNoise which reopens the port
+                if (ReopeningBecauseOfNoise) {
+                    return;
+                }
                 if (ntries < ContinuousNoiseReopenNumber) {
                     LOG(Debug) << "continuous unsolicited data flow detected, reopen the port";
-                    Reopen();
+                    ReopeningBecauseOfNoise = true;
+                    try {
+                        Reopen();
+                    } catch (...) {
+                        ReopeningBecauseOfNoise = false;
+                        throw;
+                    }
+                    ReopeningBecauseOfNoise = false;
                     ntries += 1;
                     start = std::chrono::steady_clock::now();
                 } else {
diff --git a/src/port/file_descriptor_port.h b/src/port/file_descriptor_port.h
index 78ac5cd..5b982f4 100644
--- a/src/port/file_descriptor_port.h
+++ b/src/port/file_descriptor_port.h
@@ -33,6 +33,8 @@ protected:
     std::chrono::time_point<std::chrono::steady_clock> LastInteraction;
 
 private:
+    bool ReopeningBecauseOfNoise = false;
+
     /**
      * @brief Reads data from port. Throws TSerialDeviceException on errors
      *
-- 
2.43.0


From 8ec0387fedefd8df31c2b5c683c304ec29a56364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 20/82] fix: don't terminate the service if serial port
 settings can't be restored

The destructor of TSerialPortSettingsGuard threw an exception if the port had disappeared during an RPC request.
---
 src/port/port.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/port/port.cpp b/src/port/port.cpp
index 6d16819..015cf53 100644
--- a/src/port/port.cpp
+++ b/src/port/port.cpp
@@ -108,5 +108,9 @@ TSerialPortSettingsGuard::TSerialPortSettingsGuard(PPort port, const TSerialPort
 
 TSerialPortSettingsGuard::~TSerialPortSettingsGuard()
 {
-    Port->ResetSerialPortSettings();
+    try {
+        Port->ResetSerialPortSettings();
+    } catch (const std::exception& e) {
+        Warn.Log() << Port->GetDescription() << ": can't restore port settings: " << e.what();
+    }
 }
-- 
2.43.0


From c825602425b255278d6c80b60473e4b059ba85b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 21/82] fix: don't write arbitrary numbers instead of NaN,
 infinity and too big values

The result of llround is unspecified for them, "NaN" was written to signed registers as 0.
---
 src/register.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/register.cpp b/src/register.cpp
index 7e31f26..f2fbf00 100644
--- a/src/register.cpp
+++ b/src/register.cpp
@@ -499,6 +499,16 @@ template<typename T> T RoundValue(T val, double round_to)
     return round_to > 0 ? std::round(val / round_to) * round_to : val;
 }
 
+// llround result is unspecified for NaN and values out of int64_t range
+int64_t RoundToInteger(double val, const std::string& str)
+{
+    const double limit = 9223372036854775808.0; // 2^63
+    if (!(val >= -limit && val < limit)) {
+        throw std::out_of_range("\"" + str + "\" after applying scale and offset is out of range");
+    }
+    return llround(val);
+}
+
 template<class T> struct TConvertTraits
 {};
 
@@ -512,7 +522,7 @@ template<> struct TConvertTraits<int64_t>
             if (reg.Scale == 1 && reg.Offset == 0) {
                 return value;
             }
-            return llround((value - reg.Offset) / reg.Scale);
+            return RoundToInteger((value - reg.Offset) / reg.Scale, str);
         }
         throw std::invalid_argument("\"" + str + "\" can't be converted to integer");
     }
@@ -528,7 +538,7 @@ template<> struct TConvertTraits<uint64_t>
             if (reg.Scale == 1 && reg.Offset == 0) {
                 return value;
             }
-            auto res = llround((value - reg.Offset) / reg.Scale);
+            auto res = RoundToInteger((value - reg.Offset) / reg.Scale, str);
             if (res < 0) {
                 throw std::out_of_range("\"" + str + "\" after applying scale and offset is not an unsigned integer: " +
                                         std::to_string(res));
@@ -550,7 +560,7 @@ template<typename T> T FromScaledTextValue(const TRegisterConfig& reg, const std
     try {
         return TConvertTraits<T>::FromScaledTextValue(reg, str, 10);
     } catch (const std::invalid_argument&) {
-        auto res = llround(FromScaledTextValue<double>(reg, str));
+        auto res = RoundToInteger(FromScaledTextValue<double>(reg, str), str);
         if (std::is_unsigned<T>::value && (res < 0)) {
             throw std::out_of_range(
                 "\"" + str + "\" after applying scale and offset is not an unsigned integer: " + std::to_string(res));
-- 
2.43.0


From 9c2dde1330b4e6f1f3a81a138f615d14aa58d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 22/82] fix: writing of negative integers to scaled unsigned
 registers

A negative integer was taken modulo 2^64 before applying scale and offset, so valid values (for example
"-5" to a register with offset -273) were refused or turned into garbage, while "-5.0" was written properly.
---
 src/register.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/register.cpp b/src/register.cpp
index f2fbf00..050cd05 100644
--- a/src/register.cpp
+++ b/src/register.cpp
@@ -538,7 +538,9 @@ template<> struct TConvertTraits<uint64_t>
             if (reg.Scale == 1 && reg.Offset == 0) {
                 return value;
             }
-            auto res = RoundToInteger((value - reg.Offset) / reg.Scale, str);
+            // stoull wraps negative numbers
+            auto number = str.find('-') == std::string::npos ? double(value) : -double(-value);
+            auto res = RoundToInteger((number - reg.Offset) / reg.Scale, str);
             if (res < 0) {
                 throw std::out_of_range("\"" + str + "\" after applying scale and offset is not an unsigned integer: " +
                                         std::to_string(res));
-- 
2.43.0


From eb35a8d4889e26e98d3ca4dfdb3fa83dce1300bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 23/82] fix: events of registers with partial addresses

An event carries a whole Modbus register. Controls using a part of it ("address": "40:1:3")
got the value of the whole register instead of their bits.
---
 src/serial_client_events_reader.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/serial_client_events_reader.cpp b/src/serial_client_events_reader.cpp
index ba3e4a7..51f5c81 100644
--- a/src/serial_client_events_reader.cpp
+++ b/src/serial_client_events_reader.cpp
@@ -70,6 +70,16 @@ namespace
         }
     }
 
+    //! Registers with same address can represent different value regions
+    uint64_t GetRegisterData(const TRegisterConfig& reg, uint64_t value)
+    {
+        value = (reg.GetDataOffset() < 64) ? (value >> reg.GetDataOffset()) : 0;
+        if (reg.GetDataWidth() < 64) {
+            value &= (uint64_t(1) << reg.GetDataWidth()) - 1;
+        }
+        return value;
+    }
+
     TModbusDevice* ToModbusDevice(TSerialDevice* device)
     {
         auto dev = dynamic_cast<TModbusDevice*>(device);
@@ -149,7 +159,7 @@ class TModbusExtEventsVisitor: public ModbusExt::IEventsVisitor
             uint64_t value = 0;
             memcpy(&value, data, std::min(dataSize, sizeof(value)));
             for (auto reg: regArray->second) {
-                reg->SetValue(TRegisterValue(value));
+                reg->SetValue(TRegisterValue(GetRegisterData(*reg->GetConfig(), value)));
                 RegisterChangedCallback(reg);
             }
         } else {
-- 
2.43.0


From e56cdce0bbb5908e7802524e4aa4805ddbd82c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 24/82] fix: don't repeat reading of events from a closed port

An error can close a TCP port. The port thread made endless attempts to read events
from the closed port for 100 ms without a pause and logged a warning about each of them.
---
 src/serial_client_events_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serial_client_events_reader.cpp b/src/serial_client_events_reader.cpp
index 51f5c81..82ff13f 100644
--- a/src/serial_client_events_reader.cpp
+++ b/src/serial_client_events_reader.cpp
@@ -274,6 +274,10 @@ void TSerialClientEventsReader::ReadEvents(TFeaturePort& port,
         } catch (const Modbus::TErrorBase& ex) {
             ReadEventsFailed(ex.what(), registerCallback);
         }
+        // The port can be closed because of the error, further attempts fail immediately
+        if (!port.IsOpen()) {
+            break;
+        }
     }
     DisableEventsFromRegs(port, visitor.GetRegsToDisable());
 }
-- 
2.43.0


From 5a4b65df8d1735b957979e9adbe09ce4355d8edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 25/82] fix: clear read errors of registers with events after
 reopening of a port

If the port is closed, registers updated only by events get read errors. If it was opened
again before the devices were considered disconnected, the errors remained till next events.
---
 src/serial_client_events_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_client_events_reader.cpp b/src/serial_client_events_reader.cpp
index 82ff13f..bcbe2c5 100644
--- a/src/serial_client_events_reader.cpp
+++ b/src/serial_client_events_reader.cpp
@@ -234,7 +234,6 @@ void TSerialClientEventsReader::ReadEventsFailed(const std::string& errorMessage
     if (ReadErrors > MaxReadErrors) {
         SetReadErrors(registerCallback);
         ReadErrors = 0;
-        ClearErrorsOnSuccessfulRead = true;
     }
 }
 
@@ -394,6 +393,7 @@ void TSerialClientEventsReader::OnDeviceConnectionStateChanged(PSerialDevice dev
 
 void TSerialClientEventsReader::SetReadErrors(TRegisterCallback callback)
 {
+    ClearErrorsOnSuccessfulRead = true;
     for (const auto& regArray: Regs) {
         for (const auto& reg: regArray.second) {
             if (reg->IsExcludedFromPolling() || reg->Device()->IsSporadicOnly()) {
-- 
2.43.0


From 6d384061a7796e9f58c332c523ec04b7c14f11d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 26/82] fix: retry reading of registers with events after
 reconnection of a device

A register updated only by events is read once after enabling of the events. If the reading
failed after reconnection of a device the attempt wasn't repeated and the control showed
the value read before the disconnection and an error till the next event.
---
 src/pollable_device.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index 22df3f9..1ffa635 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -1,5 +1,20 @@
 #include "pollable_device.h"
 
+namespace
+{
+    bool HasActualValue(const TRegister& reg)
+    {
+        const auto value = reg.GetValue();
+        if (value.GetType() == TRegisterValue::ValueType::Undefined) {
+            return false;
+        }
+        // Value read before disconnection is outdated if reading after reconnection fails
+        const auto& errorValue = reg.GetConfig()->ErrorValue;
+        return !reg.GetErrorState().test(TRegister::TError::ReadError) || (errorValue && (*errorValue == value)) ||
+               !reg.IsSupported(); // read error of unsupported registers is permanent
+    }
+}
+
 bool TRegisterComparePredicate::operator()(const PRegister& r1, const PRegister& r2) const
 {
     if (r1->GetConfig()->Type != r2->GetConfig()->Type) {
@@ -83,6 +98,7 @@ std::list<PRegister> TPollableDevice::MarkWaitingRegistersAsReadErrorAndReschedu
         Registers.Pop();
     }
     for (const auto& reg: res) {
+        reg->SetError(TRegister::TError::ReadError);
         ScheduleNextPoll(reg, currentTime);
     }
     return res;
@@ -150,9 +166,7 @@ void TPollableDevice::ScheduleNextPoll(PRegister reg, std::chrono::steady_clock:
     if (reg->IsExcludedFromPolling()) {
         // If register is sporadic it must be read once to get actual value
         // Keep polling it until successful read
-        if (reg->GetAvailable() != TRegisterAvailability::UNAVAILABLE &&
-            reg->GetValue().GetType() == TRegisterValue::ValueType::Undefined)
-        {
+        if (reg->GetAvailable() != TRegisterAvailability::UNAVAILABLE && !HasActualValue(*reg)) {
             Registers.AddEntry(reg, currentTime + std::chrono::microseconds(1));
         }
         return;
-- 
2.43.0


From 8c089c61480d5a9ecdb365493dad4affb5e0520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 27/82] fix: keep one user template file per device type after
 upload

---
 src/rpc/rpc_templates_handler.cpp | 12 ++++++++----
 src/templates_map.cpp             | 13 +++++++++++++
 src/templates_map.h               |  6 ++++++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/rpc/rpc_templates_handler.cpp b/src/rpc/rpc_templates_handler.cpp
index 442e380..dda6446 100644
--- a/src/rpc/rpc_templates_handler.cpp
+++ b/src/rpc/rpc_templates_handler.cpp
@@ -4,6 +4,7 @@
 
 #include <filesystem>
 #include <fstream>
+#include <set>
 
 #include <wblib/utils.h>
 
@@ -177,11 +178,13 @@ Json::Value TRPCTemplatesHandler::UploadTemplate(const Json::Value& request)
     CheckTemplateIsNotInUse(deviceType, force);
 
     auto fileName = SanitizeFilename(request["filename"].asString());
-    auto oldTemplate = Templates->FindUserDefinedTemplate(deviceType);
-    auto oldPath = oldTemplate ? oldTemplate->GetFilePath() : std::string();
+    std::set<std::string> oldPaths;
+    for (const auto& oldTemplate: Templates->FindUserDefinedTemplates(deviceType)) {
+        oldPaths.insert(oldTemplate->GetFilePath());
+    }
     auto finalPath = std::filesystem::path(UserTemplatesDir) / fileName;
     auto stem = fileName.substr(0, fileName.size() - JSON_SUFFIX.size());
-    for (size_t suffix = 1; std::filesystem::exists(finalPath) && finalPath.string() != oldPath; ++suffix) {
+    for (size_t suffix = 1; std::filesystem::exists(finalPath) && !oldPaths.count(finalPath.string()); ++suffix) {
         finalPath = std::filesystem::path(UserTemplatesDir) / (stem + "-" + std::to_string(suffix) + JSON_SUFFIX);
     }
 
@@ -201,7 +204,8 @@ Json::Value TRPCTemplatesHandler::UploadTemplate(const Json::Value& request)
         throw TRPCException(e.what(), TRPCResultCode::RPC_WRONG_PARAM_VALUE);
     }
 
-    if (!oldPath.empty() && oldPath != finalPath.string()) {
+    oldPaths.erase(finalPath.string());
+    for (const auto& oldPath: oldPaths) {
         std::error_code removeEc;
         if (std::filesystem::remove(oldPath, removeEc) || !removeEc) {
             DeviceConfedSchemas.InvalidateCache(Templates->DeleteTemplate(oldPath));
diff --git a/src/templates_map.cpp b/src/templates_map.cpp
index 18784d2..77a8554 100644
--- a/src/templates_map.cpp
+++ b/src/templates_map.cpp
@@ -425,6 +425,19 @@ PDeviceTemplate TTemplateMap::FindUserDefinedTemplate(const std::string& deviceT
     return item != it->second.rend() ? *item : nullptr;
 }
 
+std::vector<PDeviceTemplate> TTemplateMap::FindUserDefinedTemplates(const std::string& deviceType)
+{
+    std::unique_lock m(Mutex);
+    std::vector<PDeviceTemplate> res;
+    auto it = Templates.find(deviceType);
+    if (it != Templates.end()) {
+        std::copy_if(it->second.begin(), it->second.end(), std::back_inserter(res), [](const auto& t) {
+            return t->IsUserDefined();
+        });
+    }
+    return res;
+}
+
 //=============================================================================
 //                              TDeviceTemplate
 //=============================================================================
diff --git a/src/templates_map.h b/src/templates_map.h
index cb653dd..c9c0ec3 100644
--- a/src/templates_map.h
+++ b/src/templates_map.h
@@ -138,6 +138,12 @@ public:
      * @return template loaded from user templates directory or nullptr if there is no such template
      */
     PDeviceTemplate FindUserDefinedTemplate(const std::string& deviceType);
+
+    /**
+     * @brief Get all user defined templates for requested device type. There can be several of them
+     *        if the files were copied to user templates directory manually
+     */
+    std::vector<PDeviceTemplate> FindUserDefinedTemplates(const std::string& deviceType);
 };
 
 typedef std::shared_ptr<TTemplateMap> PTemplateMap;
-- 
2.43.0


From fff33f5c92565a4fde789a30c0a091143ace5392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 28/82] fix: accept uploaded templates with numbers in enum of
 a channel

---
 src/templates_map.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/templates_map.cpp b/src/templates_map.cpp
index 77a8554..713b911 100644
--- a/src/templates_map.cpp
+++ b/src/templates_map.cpp
@@ -411,7 +411,9 @@ void TTemplateMap::ValidateTemplate(const Json::Value& templateRoot)
     if (!Validator) {
         throw std::runtime_error("Device templates schema is not loaded");
     }
-    ValidateDeviceTemplate(templateRoot, *Validator);
+    auto root = templateRoot;
+    FixChannelsEnum(root);
+    ValidateDeviceTemplate(root, *Validator);
 }
 
 PDeviceTemplate TTemplateMap::FindUserDefinedTemplate(const std::string& deviceType)
-- 
2.43.0


From 3c187cca0bacef6dd98e1b475a03dd1e74ccefe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 29/82] fix: reject uploaded templates that can't be loaded
 before writing a file

---
 src/templates_map.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates_map.cpp b/src/templates_map.cpp
index 713b911..404eda2 100644
--- a/src/templates_map.cpp
+++ b/src/templates_map.cpp
@@ -414,6 +414,8 @@ void TTemplateMap::ValidateTemplate(const Json::Value& templateRoot)
     auto root = templateRoot;
     FixChannelsEnum(root);
     ValidateDeviceTemplate(root, *Validator);
+    // Check properties used during loading of a template, they may be not covered by the schema
+    MakeTemplateFromJson(root, std::string());
 }
 
 PDeviceTemplate TTemplateMap::FindUserDefinedTemplate(const std::string& deviceType)
-- 
2.43.0


From 9866daf012a14af60c92cd3536810c562e95bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 30/82] fix: don't use schema of a template that is not loaded
 any more

---
 src/confed_device_schemas_map.cpp | 17 +++++++++--------
 src/confed_device_schemas_map.h   |  8 +++++++-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/confed_device_schemas_map.cpp b/src/confed_device_schemas_map.cpp
index f4adbd3..c3a48c1 100644
--- a/src/confed_device_schemas_map.cpp
+++ b/src/confed_device_schemas_map.cpp
@@ -12,15 +12,16 @@ TDevicesConfedSchemasMap::TDevicesConfedSchemasMap(TTemplateMap& templatesMap,
 std::shared_ptr<Json::Value> TDevicesConfedSchemasMap::GetSchema(const std::string& deviceType)
 {
     std::unique_lock lock(Mutex);
-    try {
-        return Schemas.at(deviceType);
-    } catch (const std::out_of_range&) {
-        auto deviceTemplate = TemplatesMap.GetTemplate(deviceType);
-        auto schema =
-            std::make_shared<Json::Value>(GenerateSchemaForConfed(*deviceTemplate, DeviceFactory, CommonDeviceSchema));
-        Schemas.emplace(deviceType, schema);
-        return schema;
+    auto deviceTemplate = TemplatesMap.GetTemplate(deviceType);
+    auto it = Schemas.find(deviceType);
+    // The preferred template could be changed without a notification, if loading of its new version has failed
+    if (it != Schemas.end() && it->second.Template == deviceTemplate) {
+        return it->second.Schema;
     }
+    auto schema =
+        std::make_shared<Json::Value>(GenerateSchemaForConfed(*deviceTemplate, DeviceFactory, CommonDeviceSchema));
+    Schemas[deviceType] = {deviceTemplate, schema};
+    return schema;
 }
 
 void TDevicesConfedSchemasMap::InvalidateCache(const std::string& deviceType)
diff --git a/src/confed_device_schemas_map.h b/src/confed_device_schemas_map.h
index 011147b..0d6ed8b 100644
--- a/src/confed_device_schemas_map.h
+++ b/src/confed_device_schemas_map.h
@@ -9,8 +9,14 @@ class TDevicesConfedSchemasMap
     const Json::Value& CommonDeviceSchema;
     TSerialDeviceFactory& DeviceFactory;
 
+    struct TSchema
+    {
+        PDeviceTemplate Template; //! Template used to generate the schema
+        std::shared_ptr<Json::Value> Schema;
+    };
+
     //! Device type to schema map
-    std::unordered_map<std::string, std::shared_ptr<Json::Value>> Schemas;
+    std::unordered_map<std::string, TSchema> Schemas;
 
     std::mutex Mutex;
 
-- 
2.43.0


From a72daeea1c77131277f299cc6427ac4a574a8396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 31/82] fix: flush an uploaded template to a disk before
 replacing the old one

---
 src/rpc/rpc_templates_handler.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/rpc/rpc_templates_handler.cpp b/src/rpc/rpc_templates_handler.cpp
index dda6446..27de823 100644
--- a/src/rpc/rpc_templates_handler.cpp
+++ b/src/rpc/rpc_templates_handler.cpp
@@ -6,6 +6,9 @@
 #include <fstream>
 #include <set>
 
+#include <fcntl.h>
+#include <unistd.h>
+
 #include <wblib/utils.h>
 
 #include "file_utils.h"
@@ -78,6 +81,20 @@ namespace
         return count;
     }
 
+    //! Makes sure that contents of the file survive a power loss
+    void SyncFile(const std::string& path)
+    {
+        int fd = open(path.c_str(), O_WRONLY | O_CLOEXEC);
+        if (fd < 0) {
+            throw std::runtime_error("Failed to open file: " + path);
+        }
+        auto res = fsync(fd);
+        close(fd);
+        if (res != 0) {
+            throw std::runtime_error("Failed to sync file: " + path);
+        }
+    }
+
     void WriteFileAtomically(const std::filesystem::path& path, const std::string& content)
     {
         auto tmpPath = path.string() + ".tmp";
@@ -91,6 +108,7 @@ namespace
                     throw std::runtime_error("Failed to write file: " + tmpPath);
                 }
             }
+            SyncFile(tmpPath);
             std::filesystem::rename(tmpPath, path);
         } catch (const std::exception& e) {
             std::error_code ec;
-- 
2.43.0


From d9d56b5362d608217ca5e35008864263d4feab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 32/82] fix: don't poll registers without a period when the
 limit of reads per second is exceeded

---
 src/poll_plan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poll_plan.h b/src/poll_plan.h
index d4ece20..444e653 100644
--- a/src/poll_plan.h
+++ b/src/poll_plan.h
@@ -268,7 +268,7 @@ public:
                 firstItem = false;
             }
         } else {
-            if (LowPriorityQueue.HasReadyItems(currentTime)) {
+            if (policy == TItemSelectionPolicy::All && LowPriorityQueue.HasReadyItems(currentTime)) {
                 const auto pollLimit = GetLowPriorityPollLimit(currentTime);
                 bool firstItem = true;
                 // Set maximum allowed poll limit to first low priority item,
-- 
2.43.0


From 17b43c4091d159975b65230431cfd3fa596efd79 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 33/82] fix: accept settings of a channel that is defined
 several times in a template

Templates declare channels with the same name and different conditions.
Validation required exactly one match, so a config with settings of such a channel was refused.
---
 src/config_schema_generator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/config_schema_generator.cpp b/src/config_schema_generator.cpp
index 47e11f3..13bcb11 100644
--- a/src/config_schema_generator.cpp
+++ b/src/config_schema_generator.cpp
@@ -123,9 +123,12 @@ namespace
         r["type"] = "array";
         auto& items = MakeArray("oneOf", r["items"]);
         for (const auto& channel: channels) {
-            auto channelSchema = MakeTabChannelSchema(channel);
-            items.append(channelSchema);
-            names.push_back(channel["name"].asString());
+            auto name = channel["name"].asString();
+            // A template can have several channels with the same name and different conditions
+            if (std::find(names.begin(), names.end(), name) == names.end()) {
+                items.append(MakeTabChannelSchema(channel));
+                names.push_back(name);
+            }
         }
         if (!names.empty() && !customChannelsSchemaRef.empty()) {
             items.append(MakeCustomChannelsSchema(names, customChannelsSchemaRef));
-- 
2.43.0


From 30a83bcda052e056e6aca0676b1fdb0fa3f57880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 34/82] fix: validate parameters declared as an array in
 templates with subdevices

Names of array items are empty, so two parameters were treated as duplicates.
---
 src/subdevices_config/config_schema_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subdevices_config/config_schema_generator.cpp b/src/subdevices_config/config_schema_generator.cpp
index 9e40647..c37fffe 100644
--- a/src/subdevices_config/config_schema_generator.cpp
+++ b/src/subdevices_config/config_schema_generator.cpp
@@ -216,7 +216,7 @@ namespace
         if (deviceTemplate.isMember("parameters")) {
             const auto& params = deviceTemplate["parameters"];
             for (Json::ValueConstIterator it = params.begin(); it != params.end(); ++it) {
-                auto name = it.name();
+                auto name = params.isArray() ? (*it)["id"].asString() : it.name();
                 if (properties.isMember(name)) {
                     throw std::runtime_error("Validation failed.\nError 1\n  context: <root>\n  desc: "
                                              "duplicate definition of parameter \"" +
-- 
2.43.0


From e4537c323c7c056e14701b54649d0ccc8aa61aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 35/82] fix: do not drop the fractional part of numbers set by
 strings

Config schema allows strings with fractional numbers like "1.5" and "1,5".
---
 src/serial_config.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/serial_config.cpp b/src/serial_config.cpp
index 2e56862..756ffc2 100644
--- a/src/serial_config.cpp
+++ b/src/serial_config.cpp
@@ -82,7 +82,20 @@ namespace
         if (!v.isString()) {
             throw TConfigParserException(title + ": number or '0x..' hex string expected");
         }
-        return GetIntFromString(v.asString(), title);
+        auto str = v.asString();
+        if (str.find_first_of(".,") != std::string::npos) {
+            std::replace(str.begin(), str.end(), ',', '.');
+            try {
+                size_t pos = 0;
+                auto res = std::stod(str, &pos);
+                if (pos == str.size()) {
+                    return res;
+                }
+            } catch (const std::logic_error&) {
+            }
+            throw TConfigParserException(title + ": number expected instead of '" + v.asString() + "'");
+        }
+        return GetIntFromString(str, title);
     }
 
     uint64_t ToUint64(const Json::Value& v, const string& title)
-- 
2.43.0


From 3efb288c0a947134146e3a06746c32669c88e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 36/82] fix: accept integers wider than 32 bits set by numbers
 in a config

"error_value": 4294967296 was refused although the same value set by a string is accepted.
---
 src/serial_config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serial_config.cpp b/src/serial_config.cpp
index 756ffc2..4b4f9f6 100644
--- a/src/serial_config.cpp
+++ b/src/serial_config.cpp
@@ -100,11 +100,11 @@ namespace
 
     uint64_t ToUint64(const Json::Value& v, const string& title)
     {
-        if (v.isUInt()) {
+        if (v.isUInt64()) {
             return v.asUInt64();
         }
 
-        if (v.isInt()) {
+        if (v.isInt64()) {
             auto val = v.asInt64();
             if (val >= 0) {
                 return val;
-- 
2.43.0


From cb4375592b640788f3c790ac79fff46f95a05301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 37/82] fix: refuse a channel with an empty list of registers

"consists_of": [] led to access to a missing element and a crash.
---
 src/serial_config.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serial_config.cpp b/src/serial_config.cpp
index 4b4f9f6..86a0c79 100644
--- a/src/serial_config.cpp
+++ b/src/serial_config.cpp
@@ -337,6 +337,9 @@ namespace
                                                   "in one channel -- ") +
                                                  deviceWithChannels.Device->DeviceConfig()->DeviceType);
             }
+            if (registers.empty()) {
+                throw TConfigParserException(errorMsgPrefix + ": \"consists_of\" must not be empty");
+            }
         } else {
             try {
                 auto reg = LoadRegisterConfig(channel_data,
-- 
2.43.0


From bd51f4bfb8b126ec1ee62d18e1d148a1632e4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:52 +0000
Subject: [PATCH 38/82] fix: accept write-only channels added to a device with
 a template

A channel with "write_address" only matched both alternatives of the schema.
---
 src/config_schema_generator.cpp                   | 2 ++
 src/subdevices_config/config_schema_generator.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/config_schema_generator.cpp b/src/config_schema_generator.cpp
index 13bcb11..b36a55d 100644
--- a/src/config_schema_generator.cpp
+++ b/src/config_schema_generator.cpp
@@ -73,6 +73,7 @@ namespace
     //                      "properties": {
     //                          "name": { "type": "string" },
     //                          "address": { "not": {} },
+    //                          "write_address": { "not": {} },
     //                          "consists_of": { "not": {} }
     //                      }
     //                  }
@@ -96,6 +97,7 @@ namespace
         Json::Value oldChannels;
         oldChannels["properties"]["name"]["type"] = "string";
         oldChannels["properties"]["address"]["not"] = Json::Value(Json::objectValue);
+        oldChannels["properties"]["write_address"]["not"] = Json::Value(Json::objectValue);
         oldChannels["properties"]["consists_of"]["not"] = Json::Value(Json::objectValue);
         oneOf.append(std::move(oldChannels));
 
diff --git a/src/subdevices_config/config_schema_generator.cpp b/src/subdevices_config/config_schema_generator.cpp
index c37fffe..e1c6374 100644
--- a/src/subdevices_config/config_schema_generator.cpp
+++ b/src/subdevices_config/config_schema_generator.cpp
@@ -149,6 +149,7 @@ namespace
     //                      "properties": {
     //                          "name": { "type": "string" },
     //                          "address": { "not": {} },
+    //                          "write_address": { "not": {} },
     //                          "consists_of": { "not": {} }
     //                      }
     //                  }
@@ -172,6 +173,7 @@ namespace
         Json::Value oldChannels;
         oldChannels["properties"]["name"]["type"] = "string";
         oldChannels["properties"]["address"]["not"] = Json::Value(Json::objectValue);
+        oldChannels["properties"]["write_address"]["not"] = Json::Value(Json::objectValue);
         oldChannels["properties"]["consists_of"]["not"] = Json::Value(Json::objectValue);
         oneOf.append(std::move(oldChannels));
 
-- 
2.43.0


From 2ee0d7ba04573855b709d0c057117a42c9fdace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 39/82] fix: don't ignore a refused info block of a firmware

---
 src/rpc/rpc_fw_update_task.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_fw_update_task.cpp b/src/rpc/rpc_fw_update_task.cpp
index 9de1344..8938d4c 100644
--- a/src/rpc/rpc_fw_update_task.cpp
+++ b/src/rpc/rpc_fw_update_task.cpp
@@ -97,7 +97,9 @@ namespace
                                    infoData);
         auto responsePduSize =
             Modbus::CalcResponsePDUSize(Modbus::FN_WRITE_MULTIPLE_REGISTERS, FwRegisters::FW_INFO_BLOCK_COUNT);
-        traits.Transaction(port, slaveId, pdu, responsePduSize, infoBlockTimeout, frameTimeout);
+        auto res = traits.Transaction(port, slaveId, pdu, responsePduSize, infoBlockTimeout, frameTimeout);
+        // A refused info block must not be ignored: data blocks would be answered by 0x04 ("already written")
+        Modbus::ExtractResponseData(Modbus::FN_WRITE_MULTIPLE_REGISTERS, res.Pdu);
     }
 
     // Cf. firmware_update.py:349 write_fw_data_block()
-- 
2.43.0


From 6ee22d9a562a24e3a5c5427fac87c4ec725d0a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 40/82] fix: answer a firmware update request if its task can't
 be started

---
 src/rpc/rpc_fw_update_handler.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rpc/rpc_fw_update_handler.cpp b/src/rpc/rpc_fw_update_handler.cpp
index 76faee3..a4b2942 100644
--- a/src/rpc/rpc_fw_update_handler.cpp
+++ b/src/rpc/rpc_fw_update_handler.cpp
@@ -254,8 +254,8 @@ void TRPCFwUpdateHandler::GetFirmwareInfo(const Json::Value& request,
                                                              ReleaseSuite,
                                                              params.PortSettings,
                                                              Downloader,
-                                                             std::move(onResult),
-                                                             std::move(onError));
+                                                             onResult,
+                                                             onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         onError(WBMQTT::E_RPC_SERVER_ERROR, e.what());
@@ -289,8 +289,8 @@ void TRPCFwUpdateHandler::Update(const Json::Value& request,
                                                                 Downloader,
                                                                 State,
                                                                 UpdateLock,
-                                                                std::move(onResult),
-                                                                std::move(onError));
+                                                                onResult,
+                                                                onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         {
@@ -335,8 +335,8 @@ void TRPCFwUpdateHandler::Restore(const Json::Value& request,
                                                      Downloader,
                                                      State,
                                                      UpdateLock,
-                                                     std::move(onResult),
-                                                     std::move(onError));
+                                                     onResult,
+                                                     onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         {
-- 
2.43.0


From 674c8309bab4731b4a324c63830f52b1959dbb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 41/82] fix: show all errors of a firmware update in its state

---
 src/rpc/rpc_fw_update_serial_client_task.cpp | 93 +++++++++++++-------
 src/rpc/rpc_fw_update_serial_client_task.h   |  9 ++
 2 files changed, 71 insertions(+), 31 deletions(-)

diff --git a/src/rpc/rpc_fw_update_serial_client_task.cpp b/src/rpc/rpc_fw_update_serial_client_task.cpp
index 1b79664..f94a9a8 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.cpp
+++ b/src/rpc/rpc_fw_update_serial_client_task.cpp
@@ -53,6 +53,7 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
             OnResult(result);
         }
 
+        SetStage(SoftwareType, "");
         try {
             if (SoftwareType == "firmware") {
                 DoFirmwareUpdate(*port, *traits, info);
@@ -65,11 +66,7 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
             }
         } catch (const std::exception& e) {
             LOG(Error) << "Firmware update error: " << e.what();
-            std::string errorId = "com.wb.serial_driver.generic_error";
-            std::string errorMsg = "Internal error. Check logs for more info";
-            Json::Value metadata;
-            metadata["exception"] = e.what();
-            State->SetError(SlaveId, PortPath, SoftwareType, errorId, errorMsg, metadata);
+            PublishError(e.what());
         }
         {
             std::lock_guard<std::mutex> lock(UpdateLock->Mutex);
@@ -98,6 +95,7 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
 // Cf. firmware_update.py:785 FirmwareUpdater.update_software() — firmware branch
 void TFwUpdateSerialClientTask::DoFirmwareUpdate(TPort& port, Modbus::IModbusTraits& traits, const TFwDeviceInfo& info)
 {
+    SetStage("firmware", info.FwVersion);
     auto released = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
     DoFlash(port,
             traits,
@@ -117,6 +115,7 @@ void TFwUpdateSerialClientTask::DoBootloaderUpdate(TPort& port,
                                                    Modbus::IModbusTraits& traits,
                                                    const TFwDeviceInfo& info)
 {
+    SetStage("bootloader", info.BootloaderVersion);
     auto bootloader = Downloader->GetReleasedBootloader(info.FwSignature, ReleaseSuite);
     DoFlash(port,
             traits,
@@ -133,6 +132,7 @@ void TFwUpdateSerialClientTask::DoBootloaderUpdate(TPort& port,
     LOG(Info) << "Auto-restoring firmware after bootloader update for slave " << static_cast<int>(SlaveId);
     std::this_thread::sleep_for(std::chrono::seconds(2));
 
+    SetStage("firmware", "");
     auto released = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
     DoFlash(port,
             traits,
@@ -149,27 +149,66 @@ void TFwUpdateSerialClientTask::DoComponentsUpdate(TPort& port,
                                                    Modbus::IModbusTraits& traits,
                                                    const TFwDeviceInfo& info)
 {
+    TDeviceUpdateInfo failedStage;
     for (const auto& comp: info.Components) {
+        TReleasedBinary released;
         try {
-            auto released = Downloader->GetReleasedFirmware(comp.Signature, ReleaseSuite);
-            if (ComponentFirmwareIsNewer(comp.FwVersion, released.Version)) {
-                DoFlash(port,
-                        traits,
-                        "component",
-                        comp.FwVersion,
-                        released.Version,
-                        released.Endpoint,
-                        false, // components don't reboot to bootloader
-                        false,
-                        comp.Number,
-                        comp.Model);
-            }
+            released = Downloader->GetReleasedFirmware(comp.Signature, ReleaseSuite);
         } catch (const std::exception& e) {
             LOG(Warn) << "Cannot update component " << comp.Number << ": " << e.what();
+            continue;
+        }
+        if (!ComponentFirmwareIsNewer(comp.FwVersion, released.Version)) {
+            continue;
         }
+        try {
+            DoFlash(port,
+                    traits,
+                    "component",
+                    comp.FwVersion,
+                    released.Version,
+                    released.Endpoint,
+                    false, // components don't reboot to bootloader
+                    false,
+                    comp.Number,
+                    comp.Model);
+        } catch (const std::exception& e) {
+            LOG(Warn) << "Cannot update component " << comp.Number << ": " << e.what();
+            PublishError(e.what());
+            failedStage = std::move(Stage);
+        }
+    }
+    // Components share one entry of the state, so the error could be replaced by an update of the next component
+    if (failedStage.Error) {
+        State->Update(failedStage);
     }
 }
 
+void TFwUpdateSerialClientTask::SetStage(const std::string& type,
+                                         const std::string& fromVersion,
+                                         int componentNumber,
+                                         const std::string& componentModel)
+{
+    Stage = TDeviceUpdateInfo();
+    Stage.PortPath = PortPath;
+    Stage.Protocol = Protocol;
+    Stage.SlaveId = SlaveId;
+    Stage.FromVersion = fromVersion;
+    Stage.Type = type;
+    Stage.ComponentNumber = componentNumber;
+    Stage.ComponentModel = componentModel;
+}
+
+void TFwUpdateSerialClientTask::PublishError(const std::string& exception)
+{
+    Json::Value metadata;
+    metadata["exception"] = exception;
+    Stage.Error = std::make_unique<TStateError>(TStateError{"com.wb.serial_driver.generic_error",
+                                                            "Internal error. Check logs for more info",
+                                                            metadata});
+    State->Update(Stage);
+}
+
 void TFwUpdateSerialClientTask::DoFlash(TPort& port,
                                         Modbus::IModbusTraits& traits,
                                         const std::string& type,
@@ -182,17 +221,9 @@ void TFwUpdateSerialClientTask::DoFlash(TPort& port,
                                         const std::string& componentModel)
 {
     // Update state to show 0% progress
-    TDeviceUpdateInfo updateInfo;
-    updateInfo.PortPath = PortPath;
-    updateInfo.Protocol = Protocol;
-    updateInfo.SlaveId = SlaveId;
-    updateInfo.ToVersion = toVersion;
-    updateInfo.Progress = 0;
-    updateInfo.FromVersion = fromVersion;
-    updateInfo.Type = type;
-    updateInfo.ComponentNumber = componentNumber;
-    updateInfo.ComponentModel = componentModel;
-    State->Update(updateInfo);
+    SetStage(type, fromVersion, componentNumber, componentModel);
+    Stage.ToVersion = toVersion;
+    State->Update(Stage);
 
     // Download and parse firmware file
     auto firmware = Downloader->DownloadAndParseWBFW(fwUrl);
@@ -201,8 +232,8 @@ void TFwUpdateSerialClientTask::DoFlash(TPort& port,
     TUpdateNotifier notifier(30);
     FlashFirmware(traits, port, SlaveId, firmware, reboot, canPreserve, [&](int percent) {
         if (notifier.ShouldNotify(percent)) {
-            updateInfo.Progress = percent;
-            State->Update(updateInfo);
+            Stage.Progress = percent;
+            State->Update(Stage);
         }
     });
 
diff --git a/src/rpc/rpc_fw_update_serial_client_task.h b/src/rpc/rpc_fw_update_serial_client_task.h
index 27d8b61..10b2b19 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.h
+++ b/src/rpc/rpc_fw_update_serial_client_task.h
@@ -41,6 +41,13 @@ private:
                  int componentNumber = -1,
                  const std::string& componentModel = "");
 
+    // Starts a new stage of the update. Errors are published for the current stage
+    void SetStage(const std::string& type,
+                  const std::string& fromVersion,
+                  int componentNumber = -1,
+                  const std::string& componentModel = "");
+    void PublishError(const std::string& exception);
+
     uint8_t SlaveId;
     std::string Protocol;
     std::string SoftwareType;
@@ -52,4 +59,6 @@ private:
     PFwUpdateLock UpdateLock;
     WBMQTT::TMqttRpcServer::TResultCallback OnResult;
     WBMQTT::TMqttRpcServer::TErrorCallback OnError;
+
+    TDeviceUpdateInfo Stage;
 };
-- 
2.43.0


From 558f8380f95d83c840b39579f19551a526ab50b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 42/82] fix: device/Load loses requested parameters if all of
 them are already read for conditions

A parameter used in conditions of channels is read once. If there was nothing else to read among the
requested parameters, its value was not put into the result.
---
 src/rpc/rpc_device_load_task.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rpc/rpc_device_load_task.cpp b/src/rpc/rpc_device_load_task.cpp
index adeabcb..f511a08 100644
--- a/src/rpc/rpc_device_load_task.cpp
+++ b/src/rpc/rpc_device_load_task.cpp
@@ -66,6 +66,8 @@ namespace
         auto paramRegList = rpcRequest->GetParametersRegisterList(conditionParamValues);
         if (!paramRegList.empty()) {
             ReadRegisters(port, rpcRequest, paramRegList, paramData, readonlyList);
+        }
+        if (!paramData.empty()) {
             result["parameters"] = paramData;
         }
 
-- 
2.43.0


From e5e000648930b9cd4a3c6f3faa9b1487af1b1a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:19 +0000
Subject: [PATCH 43/82] fix: RPC requests give values of string registers as
 numbers or fail on empty ones

A value like "1.20" was read as 1.2, "12ab" as 12. An empty string or a long sequence of digits led to an
error instead of an answer.
---
 src/rpc/rpc_device_handler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 1a80ee0..9d34be9 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -404,6 +404,9 @@ void ReadRegisterList(TPort& port, PSerialDevice device, TRPCRegisterList& regis
 Json::Value RawValueToJSON(const TRegisterConfig& reg, TRegisterValue val)
 {
     auto str = ConvertFromRawValue(reg, val);
+    if (reg.IsString()) {
+        return str;
+    }
     try {
         if (str.find('.') == std::string::npos) {
             if (str.at(0) == '-') {
-- 
2.43.0


From 4040f14afc811e5cc1f805fba0684f80da940cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:01 +0000
Subject: [PATCH 44/82] fix: device/Load gives wrong data of requested
 parameters already read for conditions

Missing registers of Wiren Board devices were reported as 65534 instead of "unsupported" and the parameters
were not included in the list of read-only ones.
---
 src/rpc/rpc_device_load_task.cpp | 44 ++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/rpc/rpc_device_load_task.cpp b/src/rpc/rpc_device_load_task.cpp
index f511a08..a000ed1 100644
--- a/src/rpc/rpc_device_load_task.cpp
+++ b/src/rpc/rpc_device_load_task.cpp
@@ -5,18 +5,20 @@
 
 namespace
 {
-    void ReadRegisters(PPort port,
-                       PRPCDeviceLoadRequest rpcRequest,
-                       TRPCRegisterList& registerList,
-                       Json::Value& data,
-                       Json::Value& readonlyList)
+    bool IsRead(const TRPCRegister& item)
+    {
+        return item.Register->IsSupported() && !item.Register->GetErrorState().test(TRegister::TError::ReadError);
+    }
+
+    void AddRegisterValues(PPort port,
+                           PRPCDeviceLoadRequest rpcRequest,
+                           TRPCRegisterList& registerList,
+                           Json::Value& data,
+                           Json::Value& readonlyList)
     {
-        ReadRegisterList(*port, rpcRequest->Device, registerList);
         for (const auto& item: registerList) {
-            data[item.Id] =
-                (item.Register->IsSupported() && !item.Register->GetErrorState().test(TRegister::TError::ReadError))
-                    ? RawValueToJSON(*item.Register->GetConfig(), item.Register->GetValue())
-                    : UNSUPPORTED_VALUE;
+            data[item.Id] = IsRead(item) ? RawValueToJSON(*item.Register->GetConfig(), item.Register->GetValue())
+                                         : UNSUPPORTED_VALUE;
             if (item.Register->GetConfig()->AccessType == TRegisterConfig::EAccessType::READ_ONLY) {
                 readonlyList.append(item.Id);
             }
@@ -24,6 +26,16 @@ namespace
         MarkUnsupportedRegisterItems(*port, *rpcRequest, registerList, data);
     }
 
+    void ReadRegisters(PPort port,
+                       PRPCDeviceLoadRequest rpcRequest,
+                       TRPCRegisterList& registerList,
+                       Json::Value& data,
+                       Json::Value& readonlyList)
+    {
+        ReadRegisterList(*port, rpcRequest->Device, registerList);
+        AddRegisterValues(port, rpcRequest, registerList, data, readonlyList);
+    }
+
     void ExecRPCRequest(PPort port, PRPCDeviceLoadRequest rpcRequest)
     {
         if (!rpcRequest->OnResult) {
@@ -38,7 +50,7 @@ namespace
         if (!condParamRegList.empty()) {
             ReadRegisterList(*port, rpcRequest->Device, condParamRegList);
             for (const auto& item: condParamRegList) {
-                if (item.Register->IsSupported()) {
+                if (IsRead(item)) {
                     conditionParamValues[item.Id] =
                         RawValueToJSON(*item.Register->GetConfig(), item.Register->GetValue());
                 }
@@ -58,11 +70,15 @@ namespace
         // Step 3: Read explicitly requested parameters, reusing values already
         // read for condition evaluation to avoid duplicate Modbus reads
         Json::Value paramData(Json::objectValue);
-        for (const auto& id: rpcRequest->Parameters) {
-            if (conditionParamValues.isMember(id)) {
-                paramData[id] = conditionParamValues[id];
+        TRPCRegisterList knownParamRegList;
+        for (const auto& item: condParamRegList) {
+            auto requested = std::find(rpcRequest->Parameters.begin(), rpcRequest->Parameters.end(), item.Id) !=
+                             rpcRequest->Parameters.end();
+            if (requested && conditionParamValues.isMember(item.Id)) {
+                knownParamRegList.push_back(item);
             }
         }
+        AddRegisterValues(port, rpcRequest, knownParamRegList, paramData, readonlyList);
         auto paramRegList = rpcRequest->GetParametersRegisterList(conditionParamValues);
         if (!paramRegList.empty()) {
             ReadRegisters(port, rpcRequest, paramRegList, paramData, readonlyList);
-- 
2.43.0


From d3f529bc8adb6455b13d274933d2999965441168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:07 +0000
Subject: [PATCH 45/82] fix: bad answers to switching of continuous read make
 RPC requests fail

Writing of a register reports errors as serial device exceptions, not as Modbus ones, so it was not repeated
after a bad answer and the request was aborted with reading of missing registers left switched off.
---
 src/rpc/rpc_helpers.cpp | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index df0f4da..2e74c21 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -102,21 +102,9 @@ void WriteModbusRegister(TPort& port,
                                   request.ResponseTimeout,
                                   request.FrameTimeout);
             return;
-        } catch (const Modbus::TModbusExceptionError& err) {
-            if (err.GetExceptionCode() == Modbus::ILLEGAL_FUNCTION ||
-                err.GetExceptionCode() == Modbus::ILLEGAL_DATA_ADDRESS ||
-                err.GetExceptionCode() == Modbus::ILLEGAL_DATA_VALUE)
-            {
-                throw;
-            }
-            if (i == MAX_RPC_RETRIES) {
-                throw;
-            }
-        } catch (const Modbus::TErrorBase& err) {
-            if (i == MAX_RPC_RETRIES) {
-                throw;
-            }
-        } catch (const TResponseTimeoutException& e) {
+        } catch (const TSerialDevicePermanentRegisterException& err) {
+            throw;
+        } catch (const TSerialDeviceException& err) {
             if (i == MAX_RPC_RETRIES) {
                 throw;
             }
@@ -130,9 +118,7 @@ void SetContinuousRead(TPort& port, TRPCDeviceRequest& request, bool enabled)
     try {
         auto config = WbRegisters::GetRegisterConfig(WbRegisters::CONTINUOUS_READ_REGISTER_NAME);
         WriteModbusRegister(port, request, config, TRegisterValue(enabled));
-    } catch (const Modbus::TErrorBase& err) {
-        error = err.what();
-    } catch (const TResponseTimeoutException& e) {
+    } catch (const TSerialDeviceException& e) {
         error = e.what();
     }
     if (!error.empty()) {
-- 
2.43.0


From b13c32cfb8b7e678cb03a11b4a88be7f636d7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 46/82] fix: RPC requests report readable registers as
 unsupported

Registers are read in ranges. If a device refused to read a range because of one register, all of them were
reported as unsupported. Read them one by one in such a case.
---
 src/rpc/rpc_device_handler.cpp | 63 ++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 9d34be9..87052b3 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -344,6 +344,36 @@ TRPCRegisterList CreateRegisterList(const TDeviceProtocolParams& protocolParams,
     return registerList;
 }
 
+namespace
+{
+    // Returns false if the device refuses to read the registers
+    bool ReadRange(TPort& port, PSerialDevice device, PRegisterRange range, int maxRetries)
+    {
+        for (int i = 0;; ++i) {
+            try {
+                device->ReadRegisterRange(port, range, true);
+                return true;
+            } catch (const TSerialDevicePermanentRegisterException& e) {
+                LOG(Warn) << port.GetDescription() << " " << device->ToString() << ": "
+                          << "Failed to read " << std::to_string(range->RegisterList().size())
+                          << " registers starting from <" << range->RegisterList().front()->GetConfig()->ToString()
+                          << ">: " << e.what();
+                auto modbusDevice = dynamic_cast<TModbusDevice*>(device.get());
+                if (modbusDevice != nullptr && !modbusDevice->GetContinuousReadEnabled()) {
+                    for (const auto& reg: range->RegisterList()) {
+                        reg->SetSupported(false);
+                    }
+                }
+                return false;
+            } catch (const TSerialDeviceException& e) {
+                if (i == maxRetries) {
+                    throw;
+                }
+            }
+        }
+    }
+}
+
 void ReadRegisterList(TPort& port, PSerialDevice device, TRPCRegisterList& registerList, int maxRetries)
 {
     if (registerList.size() == 0) {
@@ -365,27 +395,22 @@ void ReadRegisterList(TPort& port, PSerialDevice device, TRPCRegisterList& regis
         {
             ++index;
         }
-        for (int i = 0; i <= maxRetries; ++i) {
-            try {
-                device->ReadRegisterRange(port, range, true);
-                break;
-            } catch (const TSerialDevicePermanentRegisterException& e) {
-                LOG(Warn) << port.GetDescription() << " " << device->ToString() << ": "
-                          << "Failed to read " << std::to_string(range->RegisterList().size())
-                          << " registers starting from <" << first->GetConfig()->ToString() + ">: " + e.what();
-                auto modbusDevice = dynamic_cast<TModbusDevice*>(device.get());
-                if (modbusDevice != nullptr && !modbusDevice->GetContinuousReadEnabled()) {
-                    for (const auto& reg: range->RegisterList()) {
-                        reg->SetSupported(false);
-                    }
-                }
-                break;
-            } catch (const TSerialDeviceException& e) {
-                if (i == maxRetries) {
-                    error = "Failed to read " + std::to_string(range->RegisterList().size()) +
-                            " registers starting from <" + first->GetConfig()->ToString() + ">: " + e.what();
+        try {
+            if (!ReadRange(port, device, range, maxRetries) && range->RegisterList().size() > 1) {
+                // Some registers of the range are refused, find them
+                const auto registers = range->RegisterList();
+                for (const auto& reg: registers) {
+                    reg->SetSupported(true);
+                    reg->SetAvailable(TRegisterAvailability::AVAILABLE);
+                    first = reg;
+                    range = device->CreateRegisterRange();
+                    range->Add(port, reg, std::chrono::milliseconds::max());
+                    ReadRange(port, device, range, maxRetries);
                 }
             }
+        } catch (const TSerialDeviceException& e) {
+            error = "Failed to read " + std::to_string(range->RegisterList().size()) + " registers starting from <" +
+                    first->GetConfig()->ToString() + ">: " + e.what();
         }
     }
 
-- 
2.43.0


From abc2455f4f6b2579c99885327e0ecd56db8b86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:40 +0000
Subject: [PATCH 47/82] fix: device/Set without items is answered twice

---
 src/rpc/rpc_device_set_task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 611b3a4..9716fcc 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -17,6 +17,7 @@ namespace
         rpcRequest->GetParametersSetupItems(setupItems);
         if (setupItems.empty()) {
             rpcRequest->OnResult(Json::Value(Json::objectValue));
+            return;
         }
 
         std::string error;
-- 
2.43.0


From 548bbd355582029bda2cef8617a450690a0970ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:41 +0000
Subject: [PATCH 48/82] fix: device/LoadConfig doesn't read the short model
 register of devices without the extended one

---
 src/rpc/rpc_device_load_config_task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_device_load_config_task.cpp b/src/rpc/rpc_device_load_config_task.cpp
index 3d4ba52..a5a4613 100644
--- a/src/rpc/rpc_device_load_config_task.cpp
+++ b/src/rpc/rpc_device_load_config_task.cpp
@@ -30,7 +30,7 @@ namespace
     {
         try {
             return ReadWbRegister(port, rpcRequest, WbRegisters::DEVICE_MODEL_EX_REGISTER_NAME);
-        } catch (const Modbus::TErrorBase& err) {
+        } catch (const TRPCException& err) {
             return ReadWbRegister(port, rpcRequest, WbRegisters::DEVICE_MODEL_REGISTER_NAME);
         }
     }
-- 
2.43.0


From 40a873a3b313f389ad6e60ad396e5b3a9ff1cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:11 +0000
Subject: [PATCH 49/82] fix: device/Set writes only one item to devices with
 preserve_setup_order

---
 src/rpc/rpc_device_set_task.cpp | 15 +++++++++------
 src/rpc/rpc_device_set_task.h   |  5 ++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 9716fcc..0177e21 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -74,7 +74,7 @@ void TRPCDeviceSetRequest::GetChannelsSetupItems(TDeviceSetupItems& setupItems)
         }
         auto id = item["name"].asString();
         if (Channels.count(id)) {
-            setupItems.insert(CreateSetupItem(id, item, Channels[id]));
+            AddSetupItem(setupItems, id, item, Channels[id]);
             Channels.erase(id);
         }
     }
@@ -95,7 +95,7 @@ void TRPCDeviceSetRequest::GetParametersSetupItems(TDeviceSetupItems& setupItems
         }
         auto id = params.isObject() ? it.key().asString() : item["id"].asString();
         if (Parameters.count(id)) {
-            setupItems.insert(CreateSetupItem(id, item, Parameters[id]));
+            AddSetupItem(setupItems, id, item, Parameters[id]);
             Parameters.erase(id);
         }
     }
@@ -106,9 +106,10 @@ void TRPCDeviceSetRequest::GetParametersSetupItems(TDeviceSetupItems& setupItems
     }
 }
 
-PDeviceSetupItem TRPCDeviceSetRequest::CreateSetupItem(const std::string& id,
-                                                       const Json::Value& data,
-                                                       const std::string& value)
+void TRPCDeviceSetRequest::AddSetupItem(TDeviceSetupItems& setupItems,
+                                        const std::string& id,
+                                        const Json::Value& data,
+                                        const std::string& value)
 {
     auto config = LoadRegisterConfig(data,
                                      *ProtocolParams.protocol->GetRegTypes(),
@@ -117,7 +118,9 @@ PDeviceSetupItem TRPCDeviceSetRequest::CreateSetupItem(const std::string& id,
                                      ProtocolParams.factory->GetRegisterAddressFactory().GetBaseRegisterAddress(),
                                      0);
     auto itemConfig = std::make_shared<TDeviceSetupItemConfig>(id, config.RegisterConfig, value);
-    return std::make_shared<TDeviceSetupItem>(itemConfig, Device);
+    auto item = std::make_shared<TDeviceSetupItem>(itemConfig, Device);
+    item->Order = setupItems.size();
+    setupItems.insert(item);
 }
 
 PRPCDeviceSetRequest ParseRPCDeviceSetRequest(const Json::Value& request,
diff --git a/src/rpc/rpc_device_set_task.h b/src/rpc/rpc_device_set_task.h
index ec10747..615b695 100644
--- a/src/rpc/rpc_device_set_task.h
+++ b/src/rpc/rpc_device_set_task.h
@@ -18,7 +18,10 @@ public:
     void GetParametersSetupItems(TDeviceSetupItems& setupItems);
 
 private:
-    PDeviceSetupItem CreateSetupItem(const std::string& id, const Json::Value& data, const std::string& value);
+    void AddSetupItem(TDeviceSetupItems& setupItems,
+                      const std::string& id,
+                      const Json::Value& data,
+                      const std::string& value);
 };
 
 typedef std::shared_ptr<TRPCDeviceSetRequest> PRPCDeviceSetRequest;
-- 
2.43.0


From 4352d24f87b58a370bae7f13667449e5f5cf8cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:11 +0000
Subject: [PATCH 50/82] fix: device/Set writes a part of items before refusing
 read only ones

---
 src/rpc/rpc_device_set_task.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 0177e21..1392cfc 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -117,6 +117,9 @@ void TRPCDeviceSetRequest::AddSetupItem(TDeviceSetupItems& setupItems,
                                      *ProtocolParams.factory,
                                      ProtocolParams.factory->GetRegisterAddressFactory().GetBaseRegisterAddress(),
                                      0);
+    if (config.RegisterConfig->AccessType == TRegisterConfig::EAccessType::READ_ONLY) {
+        throw TRPCException("\"" + id + "\" is read only", TRPCResultCode::RPC_WRONG_PARAM_VALUE);
+    }
     auto itemConfig = std::make_shared<TDeviceSetupItemConfig>(id, config.RegisterConfig, value);
     auto item = std::make_shared<TDeviceSetupItem>(itemConfig, Device);
     item->Order = setupItems.size();
-- 
2.43.0


From fea3536896b3342e28c7dd45316bee2b292fa030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:11 +0000
Subject: [PATCH 51/82] fix: RPC requests to devices with hexadecimal addresses

---
 src/rpc/rpc_device_handler.cpp   |  9 +++++++++
 src/rpc/rpc_helpers.cpp          |  4 ++--
 src/rpc/rpc_port_driver_list.cpp | 22 +++++++++++++++++++---
 src/rpc/rpc_port_handler.cpp     |  2 +-
 4 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 87052b3..14661f4 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -23,6 +23,15 @@ void TRPCDeviceParametersCache::RegisterCallbacks(PHandlerConfig handlerConfig)
 
 std::string TRPCDeviceParametersCache::GetId(const TPort& port, const std::string& slaveId) const
 {
+    // The same address can be written both as decimal and hexadecimal number
+    size_t length = 0;
+    try {
+        auto numericId = std::stoul(slaveId, &length, 0);
+        if (length == slaveId.size()) {
+            return port.GetDescription(false) + ":" + std::to_string(numericId);
+        }
+    } catch (const std::logic_error& e) {
+    }
     return port.GetDescription(false) + ":" + slaveId;
 }
 
diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index 2e74c21..fb8e66b 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -48,7 +48,7 @@ Json::Value LoadRPCRequestSchema(const std::string& schemaFilePath, const std::s
 
 void ReadModbusRegister(TPort& port, TRPCDeviceRequest& request, PRegisterConfig registerConfig, TRegisterValue& value)
 {
-    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId));
+    auto slaveId = static_cast<uint8_t>(std::stoul(request.Device->DeviceConfig()->SlaveId, 0, 0));
     auto traits = MakeModbusTraits(request.ProtocolParams.protocol->GetName());
     for (int i = 0; i <= MAX_RPC_RETRIES; ++i) {
         try {
@@ -87,7 +87,7 @@ void WriteModbusRegister(TPort& port,
                          PRegisterConfig registerConfig,
                          const TRegisterValue& value)
 {
-    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId));
+    auto slaveId = static_cast<uint8_t>(std::stoul(request.Device->DeviceConfig()->SlaveId, 0, 0));
     auto traits = MakeModbusTraits(request.ProtocolParams.protocol->GetName());
     Modbus::TRegisterCache cache;
     for (int i = 0; i <= MAX_RPC_RETRIES; ++i) {
diff --git a/src/rpc/rpc_port_driver_list.cpp b/src/rpc/rpc_port_driver_list.cpp
index 1025931..a759edb 100644
--- a/src/rpc/rpc_port_driver_list.cpp
+++ b/src/rpc/rpc_port_driver_list.cpp
@@ -22,6 +22,22 @@ namespace
         throw TRPCException("Port is not defined", TRPCResultCode::RPC_WRONG_PARAM_VALUE);
     }
 
+    bool IsSameSlaveId(const TSerialDevice& device, const std::string& slaveId)
+    {
+        const auto& deviceSlaveId = device.DeviceConfig()->SlaveId;
+        if (deviceSlaveId == slaveId) {
+            return true;
+        }
+        if (deviceSlaveId.empty() || slaveId.empty()) {
+            return false;
+        }
+        try {
+            return device.Protocol()->IsSameSlaveId(deviceSlaveId, slaveId);
+        } catch (const TSerialDeviceException& e) {
+            return false;
+        }
+    }
+
     PFeaturePort InitPort(const Json::Value& request)
     {
         if (request.isMember("path")) {
@@ -151,9 +167,9 @@ TSerialClientParams TSerialClientTaskRunner::GetSerialClientParams(const Json::V
             auto slaveId = request["slave_id"].asString();
             auto deviceType = request["device_type"].asString();
             for (auto device: (*portDriver)->GetSerialClient()->GetDevices()) {
-                if (device->DeviceConfig()->SlaveId == slaveId &&
-                    (device->DeviceConfig()->DeviceType == deviceType ||
-                     (deviceType.empty() && WBMQTT::StringStartsWith(device->Protocol()->GetName(), "modbus"))))
+                if ((device->DeviceConfig()->DeviceType == deviceType ||
+                     (deviceType.empty() && WBMQTT::StringStartsWith(device->Protocol()->GetName(), "modbus"))) &&
+                    IsSameSlaveId(*device, slaveId))
                 {
                     params.Device = device;
                     break;
diff --git a/src/rpc/rpc_port_handler.cpp b/src/rpc/rpc_port_handler.cpp
index 8ff6f28..9ca07e3 100644
--- a/src/rpc/rpc_port_handler.cpp
+++ b/src/rpc/rpc_port_handler.cpp
@@ -61,7 +61,7 @@ void TRPCPortHandler::PortLoad(const Json::Value& request,
             rpcRequest->OnResult = onResult;
             rpcRequest->OnError = onError;
             if (clientParams.Device) {
-                rpcRequest->SlaveId = std::stoul(clientParams.Device->DeviceConfig()->SlaveId);
+                rpcRequest->SlaveId = std::stoul(clientParams.Device->DeviceConfig()->SlaveId, 0, 0);
                 rpcRequest->Protocol = protocol;
             }
             SerialClientTaskRunner.RunTask(request, std::make_shared<TRPCPortLoadModbusSerialClientTask>(rpcRequest));
-- 
2.43.0


From e11509221f94f02547323e3acd1931e02f49b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:30 +0000
Subject: [PATCH 52/82] fix: RPC requests with too big numbers are sent to
 wrong devices and registers

---
 src/rpc/rpc_device_load_config_task.h               | 2 +-
 src/rpc/rpc_device_probe_task.cpp                   | 2 +-
 src/rpc/rpc_port_load_modbus_serial_client_task.cpp | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rpc/rpc_device_load_config_task.h b/src/rpc/rpc_device_load_config_task.h
index 3a59419..bbeec67 100644
--- a/src/rpc/rpc_device_load_config_task.h
+++ b/src/rpc/rpc_device_load_config_task.h
@@ -3,7 +3,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= UINT8_MAX;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
diff --git a/src/rpc/rpc_device_probe_task.cpp b/src/rpc/rpc_device_probe_task.cpp
index c496dde..75b1d05 100644
--- a/src/rpc/rpc_device_probe_task.cpp
+++ b/src/rpc/rpc_device_probe_task.cpp
@@ -8,7 +8,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= UINT8_MAX;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
diff --git a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
index 97b4ecc..98f74e9 100644
--- a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
+++ b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
@@ -7,7 +7,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= UINT8_MAX;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
@@ -17,7 +17,7 @@ template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
 
 template<> bool inline WBMQTT::JSON::Is<uint16_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= UINT16_MAX;
 }
 
 template<> inline uint16_t WBMQTT::JSON::As<uint16_t>(const Json::Value& value)
@@ -31,7 +31,7 @@ template<> bool inline WBMQTT::JSON::Is<Modbus::EFunction>(const Json::Value& va
         return false;
     }
     auto fun = value.asUInt();
-    return Modbus::IsSupportedFunction(fun & 0xFF);
+    return fun <= UINT8_MAX && Modbus::IsSupportedFunction(fun);
 }
 
 template<> inline Modbus::EFunction WBMQTT::JSON::As<Modbus::EFunction>(const Json::Value& value)
-- 
2.43.0


From 2714955a41c51c8ca32f661bb0cf539b1db9fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:30 +0000
Subject: [PATCH 53/82] fix: port/Load sends zeroes instead of wrong characters
 of a hexadecimal message

---
 src/rpc/rpc_port_load_request.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rpc/rpc_port_load_request.cpp b/src/rpc/rpc_port_load_request.cpp
index 04e432d..8ab2905 100644
--- a/src/rpc/rpc_port_load_request.cpp
+++ b/src/rpc/rpc_port_load_request.cpp
@@ -24,6 +24,11 @@ std::vector<uint8_t> HexStringToByteVector(const std::string& hexString)
     }
 
     for (size_t i = 0; i < hexString.size(); i += 2) {
+        if (!isxdigit(static_cast<unsigned char>(hexString[i])) ||
+            !isxdigit(static_cast<unsigned char>(hexString[i + 1])))
+        {
+            throw std::runtime_error("Hex message has wrong characters");
+        }
         auto byte = strtol(hexString.substr(i, 2).c_str(), NULL, 16);
         byteVector.push_back(byte);
     }
-- 
2.43.0


From 190441e1af4a6f355cef03009a87c68eed36dfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 54/82] fix: device/LoadConfig gives old values of parameters
 changed by device/Set

---
 src/rpc/rpc_device_handler.cpp  |  1 +
 src/rpc/rpc_device_set_task.cpp | 17 ++++++++++++++---
 src/rpc/rpc_device_set_task.h   |  5 ++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 14661f4..b43593b 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -234,6 +234,7 @@ void TRPCDeviceHandler::Set(const Json::Value& request,
                                                    helper.Device,
                                                    helper.DeviceTemplate,
                                                    helper.DeviceFromConfig,
+                                                   ParametersCache,
                                                    onResult,
                                                    onError);
         SerialClientTaskRunner.RunTask(request, std::make_shared<TRPCDeviceSetSerialClientTask>(rpcRequest));
diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 1392cfc..973a45b 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -29,6 +29,10 @@ namespace
             throw TRPCException(error, TRPCResultCode::RPC_WRONG_PARAM_VALUE);
         }
 
+        // A device could have accepted a value even if its answer is lost
+        rpcRequest->ParametersCache.Remove(
+            rpcRequest->ParametersCache.GetId(*port, rpcRequest->Device->DeviceConfig()->SlaveId));
+
         try {
             rpcRequest->Device->WriteSetupRegisters(*port, setupItems, true);
         } catch (const TSerialDeviceException& e) {
@@ -54,8 +58,10 @@ namespace
 TRPCDeviceSetRequest::TRPCDeviceSetRequest(const TDeviceProtocolParams& protocolParams,
                                            PSerialDevice device,
                                            PDeviceTemplate deviceTemplate,
-                                           bool deviceFromConfig)
-    : TRPCDeviceRequest(protocolParams, device, deviceTemplate, deviceFromConfig)
+                                           bool deviceFromConfig,
+                                           TRPCDeviceParametersCache& parametersCache)
+    : TRPCDeviceRequest(protocolParams, device, deviceTemplate, deviceFromConfig),
+      ParametersCache(parametersCache)
 {}
 
 void TRPCDeviceSetRequest::ParseRequestItems(const Json::Value& items,
@@ -131,10 +137,15 @@ PRPCDeviceSetRequest ParseRPCDeviceSetRequest(const Json::Value& request,
                                               PSerialDevice device,
                                               PDeviceTemplate deviceTemplate,
                                               bool deviceFromConfig,
+                                              TRPCDeviceParametersCache& parametersCache,
                                               WBMQTT::TMqttRpcServer::TResultCallback onResult,
                                               WBMQTT::TMqttRpcServer::TErrorCallback onError)
 {
-    auto res = std::make_shared<TRPCDeviceSetRequest>(protocolParams, device, deviceTemplate, deviceFromConfig);
+    auto res = std::make_shared<TRPCDeviceSetRequest>(protocolParams,
+                                                      device,
+                                                      deviceTemplate,
+                                                      deviceFromConfig,
+                                                      parametersCache);
     res->ParseSettings(request, onResult, onError);
     res->ParseRequestItems(request["channels"], res->Channels);
     res->ParseRequestItems(request["parameters"], res->Parameters);
diff --git a/src/rpc/rpc_device_set_task.h b/src/rpc/rpc_device_set_task.h
index 615b695..37e8b06 100644
--- a/src/rpc/rpc_device_set_task.h
+++ b/src/rpc/rpc_device_set_task.h
@@ -7,8 +7,10 @@ public:
     TRPCDeviceSetRequest(const TDeviceProtocolParams& protocolParams,
                          PSerialDevice device,
                          PDeviceTemplate deviceTemplate,
-                         bool deviceFromConfig);
+                         bool deviceFromConfig,
+                         TRPCDeviceParametersCache& parametersCache);
 
+    TRPCDeviceParametersCache& ParametersCache;
     std::unordered_map<std::string, std::string> Channels;
     std::unordered_map<std::string, std::string> Parameters;
 
@@ -31,6 +33,7 @@ PRPCDeviceSetRequest ParseRPCDeviceSetRequest(const Json::Value& request,
                                               PSerialDevice device,
                                               PDeviceTemplate deviceTemplate,
                                               bool deviceFromConfig,
+                                              TRPCDeviceParametersCache& parametersCache,
                                               WBMQTT::TMqttRpcServer::TResultCallback onResult,
                                               WBMQTT::TMqttRpcServer::TErrorCallback onError);
 
-- 
2.43.0


From 22276660317b65c2f2184e096ac8fa3e8521a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 55/82] fix: device/LoadConfig gives old values if an answer to
 a write by port/Load is lost

---
 ...pc_port_load_modbus_serial_client_task.cpp | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
index 98f74e9..2d264d6 100644
--- a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
+++ b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
@@ -84,6 +84,17 @@ void ExecRPCPortLoadModbusRequest(TPort& port, PRPCPortLoadModbusRequest rpcRequ
                                    rpcRequest->Message);
 
         auto responsePduSize = Modbus::CalcResponsePDUSize(rpcRequest->Function, rpcRequest->Count);
+        // A device could have accepted a value even if its answer is lost
+        if (rpcRequest->Function == Modbus::EFunction::FN_WRITE_SINGLE_COIL ||
+            rpcRequest->Function == Modbus::EFunction::FN_WRITE_SINGLE_REGISTER ||
+            rpcRequest->Function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS ||
+            rpcRequest->Function == Modbus::EFunction::FN_WRITE_MULTIPLE_REGISTERS ||
+            rpcRequest->Function == Modbus::EFunction::FN_READ_WRITE_MULTIPLE_REGISTERS)
+        {
+            std::string id = rpcRequest->ParametersCache.GetId(port, std::to_string(rpcRequest->SlaveId));
+            rpcRequest->ParametersCache.Remove(id);
+        }
+
         auto res = traits->Transaction(port,
                                        rpcRequest->SlaveId,
                                        pdu,
@@ -97,16 +108,6 @@ void ExecRPCPortLoadModbusRequest(TPort& port, PRPCPortLoadModbusRequest rpcRequ
             replyJSON["response"] = FormatResponse(response, rpcRequest->Format);
             rpcRequest->OnResult(replyJSON);
         }
-
-        if (rpcRequest->Function == Modbus::EFunction::FN_WRITE_SINGLE_COIL ||
-            rpcRequest->Function == Modbus::EFunction::FN_WRITE_SINGLE_REGISTER ||
-            rpcRequest->Function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS ||
-            rpcRequest->Function == Modbus::EFunction::FN_WRITE_MULTIPLE_REGISTERS ||
-            rpcRequest->Function == Modbus::EFunction::FN_READ_WRITE_MULTIPLE_REGISTERS)
-        {
-            std::string id = rpcRequest->ParametersCache.GetId(port, std::to_string(rpcRequest->SlaveId));
-            rpcRequest->ParametersCache.Remove(id);
-        }
     } catch (const Modbus::TModbusExceptionError& error) {
         Json::Value replyJSON;
         replyJSON["exception"]["code"] = error.GetExceptionCode();
-- 
2.43.0


From e210f09f8dd4e9e709377a46e3467e05ba73fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 56/82] fix: use of removed items of parameters cache

---
 src/rpc/rpc_device_handler.cpp | 2 +-
 src/rpc/rpc_device_handler.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index b43593b..b7ae89b 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -53,7 +53,7 @@ bool TRPCDeviceParametersCache::Contains(const std::string& id) const
     return DeviceParameters.find(id) != DeviceParameters.end();
 }
 
-const Json::Value& TRPCDeviceParametersCache::Get(const std::string& id, const Json::Value& defaultValue) const
+Json::Value TRPCDeviceParametersCache::Get(const std::string& id, const Json::Value& defaultValue) const
 {
     std::unique_lock lock(Mutex);
     auto it = DeviceParameters.find(id);
diff --git a/src/rpc/rpc_device_handler.h b/src/rpc/rpc_device_handler.h
index 2e72c30..3b8362e 100644
--- a/src/rpc/rpc_device_handler.h
+++ b/src/rpc/rpc_device_handler.h
@@ -42,7 +42,7 @@ public:
      * Returns device paramerers data if cache contains it or defaultData overwise.
      * This method is thread safe.
      */
-    const Json::Value& Get(const std::string& id, const Json::Value& defaultValue = Json::Value()) const;
+    Json::Value Get(const std::string& id, const Json::Value& defaultValue = Json::Value()) const;
 
 private:
     mutable std::mutex Mutex;
-- 
2.43.0


From 039055dc7a73ba8bedc2a05504ca3a9356f4bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:19 +0000
Subject: [PATCH 57/82] fix: device/LoadConfig takes parameters of a device on
 other port

---
 src/rpc/rpc_device_load_config_task.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rpc/rpc_device_load_config_task.cpp b/src/rpc/rpc_device_load_config_task.cpp
index a5a4613..4363e19 100644
--- a/src/rpc/rpc_device_load_config_task.cpp
+++ b/src/rpc/rpc_device_load_config_task.cpp
@@ -35,11 +35,22 @@ namespace
         }
     }
 
+    std::string GetConfigPortDescription(const Json::Value& portConfig)
+    {
+        if (portConfig.isMember("path")) {
+            return portConfig["path"].asString();
+        }
+        return portConfig["address"].asString() + ":" + portConfig["port"].asString();
+    }
+
     void LoadConfigParameters(PPort port, PRPCDeviceLoadConfigRequest rpcRequest, Json::Value& parameters)
     {
         Json::Value config(WBMQTT::JSON::Parse(rpcRequest->ConfigFileName));
-        for (const auto& port: config["ports"]) {
-            for (auto cfg: port["devices"]) {
+        for (const auto& portConfig: config["ports"]) {
+            if (GetConfigPortDescription(portConfig) != port->GetDescription(false)) {
+                continue;
+            }
+            for (auto cfg: portConfig["devices"]) {
                 const auto& dev = rpcRequest->Device->DeviceConfig();
                 if (cfg["device_type"].asString() == dev->DeviceType && cfg["slave_id"].asString() == dev->SlaveId) {
                     cfg.removeMember("channels");
-- 
2.43.0


From d42f79c5d7ad763b3f626672d9b680bbeeac3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 58/82] fix: setup registers are not written to a disconnected
 device after an RPC request to it

---
 src/serial_device.cpp | 5 +++++
 src/serial_device.h   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 743ef85..e535bb5 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -91,6 +91,7 @@ TSerialDevice::TSerialDevice(PDeviceConfig config, PProtocol protocol)
       _Protocol(protocol),
       LastSuccessfulCycle(),
       ConnectionState(TDeviceConnectionState::UNKNOWN),
+      PreparedWithoutSetup(false),
       RemainingFailCycles(0),
       SupportsHoles(true),
       SporadicOnly(true),
@@ -110,6 +111,7 @@ PRegisterRange TSerialDevice::CreateRegisterRange() const
 void TSerialDevice::Prepare(TPort& port, TDevicePrepareMode prepareMode)
 {
     bool deviceWasDisconnected = (ConnectionState != TDeviceConnectionState::CONNECTED);
+    PreparedWithoutSetup = (prepareMode == TDevicePrepareMode::WITHOUT_SETUP);
     try {
         PrepareImpl(port);
         if (prepareMode == TDevicePrepareMode::WITH_SETUP_IF_WAS_DISCONNECTED && deviceWasDisconnected) {
@@ -206,6 +208,9 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
 void TSerialDevice::SetTransferResult(bool ok)
 {
     if (ok) {
+        if (PreparedWithoutSetup && ConnectionState != TDeviceConnectionState::CONNECTED) {
+            return;
+        }
         LastSuccessfulCycle = std::chrono::steady_clock::now();
         SetConnectionState(TDeviceConnectionState::CONNECTED);
         RemainingFailCycles = _DeviceConfig->DeviceMaxFailCycles;
diff --git a/src/serial_device.h b/src/serial_device.h
index 49061a9..272e3b3 100644
--- a/src/serial_device.h
+++ b/src/serial_device.h
@@ -293,6 +293,11 @@ private:
     PProtocol _Protocol;
     std::chrono::steady_clock::time_point LastSuccessfulCycle;
     TDeviceConnectionState ConnectionState;
+
+    //! The last session was opened without writing of setup registers,
+    //! so it can't make the device connected
+    bool PreparedWithoutSetup;
+
     int RemainingFailCycles;
     bool SupportsHoles;
     bool SporadicOnly;
-- 
2.43.0


From 55c0f1f1afed8f4da22c5105ac5aad2155a78ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 59/82] fix: port loops read the activity flag without
 synchronization with Stop

---
 src/serial_driver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_driver.h b/src/serial_driver.h
index 6828a4d..48036f3 100644
--- a/src/serial_driver.h
+++ b/src/serial_driver.h
@@ -18,7 +18,7 @@ private:
     std::vector<PSerialPortDriver> PortDrivers;
     std::vector<std::thread> PortLoops;
     std::mutex ActiveMutex;
-    bool Active;
+    std::atomic<bool> Active;
 };
 
 typedef std::shared_ptr<TMQTTSerialDriver> PMQTTSerialDriver;
-- 
2.43.0


From 4a504ce7242bb7e2fa23a2794156d4117e87c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 60/82] fix: device poll is suspended before the client is
 activated

device/SetPoll request handled between start of the service and the first cycle of a port used
null RegReader
---
 src/serial_client.h   | 5 ++++-
 src/serial_driver.cpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serial_client.h b/src/serial_client.h
index cb792bd..d4e0212 100644
--- a/src/serial_client.h
+++ b/src/serial_client.h
@@ -91,6 +91,10 @@ public:
     ~TSerialClient();
 
     void AddDevice(PSerialDevice device);
+
+    //! Prepares the client for polling. Devices can't be added after this call, SuspendPoll and ResumePoll can be
+    //! called only after it
+    void Activate();
     void Cycle();
     void SetTextValue(PRegister reg, const std::string& value);
     void SetReadCallback(const TRegisterCallback& callback);
@@ -105,7 +109,6 @@ public:
     void ResumePoll(PSerialDevice device);
 
 private:
-    void Activate();
     void WaitForPollAndFlush(std::chrono::steady_clock::time_point now,
                              std::chrono::steady_clock::time_point waitUntil);
     PRegisterHandler GetHandler(PRegister) const;
diff --git a/src/serial_driver.cpp b/src/serial_driver.cpp
index 19a14cb..500f5dc 100644
--- a/src/serial_driver.cpp
+++ b/src/serial_driver.cpp
@@ -87,6 +87,7 @@ void TMQTTSerialDriver::Start()
     }
 
     for (const auto& portDriver: PortDrivers) {
+        portDriver->GetSerialClient()->Activate();
         PortLoops.emplace_back([&] {
             WBMQTT::SetThreadName(portDriver->GetShortDescription());
             while (Active) {
-- 
2.43.0


From 64133299ba86f49ca22319ea7ddfa64f5083aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 61/82] fix: poll suspending and resuming race with the thread
 polling devices

DevicesWithSpendedPoll and DisconnectedDevicesWaitingForReschedule were modified both by RPC and polling
threads, connection state of the device was changed by RPC thread
---
 src/serial_client.cpp                 |  9 ++++
 src/serial_client.h                   |  3 ++
 src/serial_client_register_poller.cpp | 63 +++++++++++++++++----------
 src/serial_client_register_poller.h   | 11 ++++-
 4 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/src/serial_client.cpp b/src/serial_client.cpp
index f0449df..93b31c9 100644
--- a/src/serial_client.cpp
+++ b/src/serial_client.cpp
@@ -99,6 +99,7 @@ void TSerialClient::WaitForPollAndFlush(steady_clock::time_point currentTime, st
             std::vector<PSerialClientTask> tasks;
             Tasks.swap(tasks);
             lock.unlock();
+            RegReader->DisconnectSuspendedDevices();
             for (auto& task: tasks) {
                 if (task->Run(Port, *LastAccessedDevice, Devices) == ISerialClientTask::TRunResult::RETRY) {
                     retryTasks.push_back(task);
@@ -245,6 +246,7 @@ TSerialClientRegisterAndEventsReader::TSerialClientRegisterAndEventsReader(const
 void TSerialClientRegisterAndEventsReader::ClosedPortCycle(std::chrono::steady_clock::time_point currentTime,
                                                            TRegisterCallback regCallback)
 {
+    RegisterPoller.DisconnectSuspendedDevices();
     EventsReader->SetReadErrors(regCallback);
     RegisterPoller.ClosedPortCycle(currentTime, regCallback);
 }
@@ -271,6 +273,8 @@ PSerialDevice TSerialClientRegisterAndEventsReader::OpenPortCycle(TFeaturePort&
                                                                   TRegisterCallback regCallback,
                                                                   TSerialClientDeviceAccessHandler& lastAccessedDevice)
 {
+    RegisterPoller.DisconnectSuspendedDevices();
+
     // Count idle time as high priority task time to faster reach time balancing threshold
     if (LastCycleWasTooSmallToPoll) {
         TimeBalancer.UpdateSelectionTime(ceil<milliseconds>(SpentTime.GetSpentTime()), TPriority::High);
@@ -350,3 +354,8 @@ void TSerialClientRegisterAndEventsReader::ResumePoll(PSerialDevice device)
 {
     RegisterPoller.ResumePoll(device);
 }
+
+void TSerialClientRegisterAndEventsReader::DisconnectSuspendedDevices()
+{
+    RegisterPoller.DisconnectSuspendedDevices();
+}
diff --git a/src/serial_client.h b/src/serial_client.h
index d4e0212..97311c6 100644
--- a/src/serial_client.h
+++ b/src/serial_client.h
@@ -42,6 +42,9 @@ public:
     void SuspendPoll(PSerialDevice device, std::chrono::steady_clock::time_point currentTime);
     void ResumePoll(PSerialDevice device);
 
+    //! Completes SuspendPoll in the thread polling devices
+    void DisconnectSuspendedDevices();
+
 private:
     PSerialClientEventsReader EventsReader;
     TSerialClientRegisterPoller RegisterPoller;
diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 38c8ab5..8309aa1 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -162,8 +162,9 @@ void TSerialClientRegisterPoller::ClosedPortCycle(steady_clock::time_point curre
 {
     Scheduler.ResetLoadBalancing();
 
+    DisconnectSuspendedDevices();
+    ResumeDevicesWithExpiredSuspend(currentTime);
     RescheduleDisconnectedDevices();
-    RescheduleDevicesWithSpendedPoll(currentTime);
 
     std::unique_lock lock(Mutex);
 
@@ -210,8 +211,9 @@ TPollResult TSerialClientRegisterPoller::OpenPortCycle(TFeaturePort& port,
                                                        TSerialClientDeviceAccessHandler& lastAccessedDevice,
                                                        TRegisterCallback callback)
 {
+    DisconnectSuspendedDevices();
+    ResumeDevicesWithExpiredSuspend(spentTime.GetStartTime());
     RescheduleDisconnectedDevices();
-    RescheduleDevicesWithSpendedPoll(spentTime.GetStartTime());
 
     std::unique_lock lock(Mutex);
 
@@ -278,7 +280,9 @@ TPollResult TSerialClientRegisterPoller::OpenPortCycle(TFeaturePort& port,
 
 void TSerialClientRegisterPoller::SuspendPoll(PSerialDevice device, std::chrono::steady_clock::time_point currentTime)
 {
+    // Wait for the end of the current poll
     std::unique_lock lock(Mutex);
+    std::unique_lock suspendLock(SuspendMutex);
 
     if (DevicesWithSpendedPoll.find(device) == DevicesWithSpendedPoll.end()) {
         auto range = Devices.equal_range(device);
@@ -291,37 +295,49 @@ void TSerialClientRegisterPoller::SuspendPoll(PSerialDevice device, std::chrono:
     }
 
     DevicesWithSpendedPoll[device] = currentTime + SUSPEND_POLL_TIMEOUT;
+    SuspendedDevicesWaitingForDisconnect.push_back(device);
     LOG(Info) << "Device " << device->ToString() << " poll suspended";
-
-    if (device->GetConnectionState() != TDeviceConnectionState::DISCONNECTED) {
-        device->SetDisconnected();
-    }
 }
 
 void TSerialClientRegisterPoller::ResumePoll(PSerialDevice device)
 {
-    std::unique_lock lock(Mutex);
+    std::unique_lock suspendLock(SuspendMutex);
 
     if (DevicesWithSpendedPoll.find(device) == DevicesWithSpendedPoll.end()) {
         throw std::runtime_error("Device " + device->ToString() + " poll is not suspended");
     }
 
-    auto range = Devices.equal_range(device);
-    for (auto it = range.first; it != range.second; ++it) {
-        it->second->RescheduleAllRegisters();
-        Scheduler.AddEntry(it->second, it->second->GetDeadline(), it->second->GetPriority());
-    }
+    ResumePollUnsafe(device);
+}
 
+void TSerialClientRegisterPoller::ResumePollUnsafe(PSerialDevice device)
+{
     DevicesWithSpendedPoll.erase(device);
+    DisconnectedDevicesWaitingForReschedule.push_back(device);
     LOG(Info) << "Device " << device->ToString() << " poll resumed";
 }
 
-void TSerialClientRegisterPoller::OnDeviceConnectionStateChanged(PSerialDevice device)
+void TSerialClientRegisterPoller::DisconnectSuspendedDevices()
 {
-    if (device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED &&
-        DevicesWithSpendedPoll.find(device) == DevicesWithSpendedPoll.end())
+    std::vector<PSerialDevice> devices;
     {
-        DisconnectedDevicesWaitingForReschedule.push_back(device);
+        std::unique_lock suspendLock(SuspendMutex);
+        devices.swap(SuspendedDevicesWaitingForDisconnect);
+    }
+    for (auto& device: devices) {
+        if (device->GetConnectionState() != TDeviceConnectionState::DISCONNECTED) {
+            device->SetDisconnected();
+        }
+    }
+}
+
+void TSerialClientRegisterPoller::OnDeviceConnectionStateChanged(PSerialDevice device)
+{
+    if (device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
+        std::unique_lock suspendLock(SuspendMutex);
+        if (DevicesWithSpendedPoll.find(device) == DevicesWithSpendedPoll.end()) {
+            DisconnectedDevicesWaitingForReschedule.push_back(device);
+        }
     }
 }
 
@@ -348,6 +364,7 @@ std::string TThrottlingStateLogger::GetMessage()
 void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
 {
     std::unique_lock lock(Mutex);
+    std::unique_lock suspendLock(SuspendMutex);
     for (auto& device: DisconnectedDevicesWaitingForReschedule) {
         // Poll could be suspended since disconnection, the device will be rescheduled on resume
         if (DevicesWithSpendedPoll.find(device) != DevicesWithSpendedPoll.end()) {
@@ -363,18 +380,16 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
     DisconnectedDevicesWaitingForReschedule.clear();
 }
 
-void TSerialClientRegisterPoller::RescheduleDevicesWithSpendedPoll(std::chrono::steady_clock::time_point currentTime)
+void TSerialClientRegisterPoller::ResumeDevicesWithExpiredSuspend(std::chrono::steady_clock::time_point currentTime)
 {
+    std::unique_lock suspendLock(SuspendMutex);
     std::list<PSerialDevice> list;
-    {
-        std::unique_lock lock(Mutex);
-        for (auto it = DevicesWithSpendedPoll.begin(); it != DevicesWithSpendedPoll.end(); ++it) {
-            if (it->second <= currentTime) {
-                list.push_back(it->first);
-            }
+    for (auto it = DevicesWithSpendedPoll.begin(); it != DevicesWithSpendedPoll.end(); ++it) {
+        if (it->second <= currentTime) {
+            list.push_back(it->first);
         }
     }
     for (auto device: list) {
-        ResumePoll(device);
+        ResumePollUnsafe(device);
     }
 }
diff --git a/src/serial_client_register_poller.h b/src/serial_client_register_poller.h
index 8493395..d984d8c 100644
--- a/src/serial_client_register_poller.h
+++ b/src/serial_client_register_poller.h
@@ -48,16 +48,21 @@ public:
                               TSerialClientDeviceAccessHandler& lastAccessedDevice,
                               TRegisterCallback callback);
 
+    // Can be called from any thread
     void SuspendPoll(PSerialDevice device, std::chrono::steady_clock::time_point currentTime);
     void ResumePoll(PSerialDevice device);
 
+    // State of a device must be changed only by the thread polling it
+    void DisconnectSuspendedDevices();
+
 private:
     void ScheduleNextPoll(PPollableDevice device, std::chrono::steady_clock::time_point currentTime);
     std::chrono::steady_clock::time_point GetDeadline(bool lowPriorityRateLimitIsExceeded,
                                                       const util::TSpentTimeMeter& spentTime) const;
     void OnDeviceConnectionStateChanged(PSerialDevice device);
     void RescheduleDisconnectedDevices();
-    void RescheduleDevicesWithSpendedPoll(std::chrono::steady_clock::time_point currentTime);
+    void ResumeDevicesWithExpiredSuspend(std::chrono::steady_clock::time_point currentTime);
+    void ResumePollUnsafe(PSerialDevice device);
 
     std::mutex Mutex;
 
@@ -69,7 +74,11 @@ private:
 
     TRateLimiter LowPriorityRateLimiter;
 
+    // Guards the fields below. They are accessed by threads handling RPC requests
+    std::mutex SuspendMutex;
+
     std::vector<PSerialDevice> DisconnectedDevicesWaitingForReschedule;
+    std::vector<PSerialDevice> SuspendedDevicesWaitingForDisconnect;
 
     std::unordered_map<PSerialDevice, std::chrono::steady_clock::time_point> DevicesWithSpendedPoll;
 };
-- 
2.43.0


From 892274c1b5fd63da62e0f90f438b5b252b19835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 62/82] fix: request with device_id crashes the service without
 a valid config

---
 src/rpc/rpc_port_driver_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_port_driver_list.cpp b/src/rpc/rpc_port_driver_list.cpp
index a759edb..59116d3 100644
--- a/src/rpc/rpc_port_driver_list.cpp
+++ b/src/rpc/rpc_port_driver_list.cpp
@@ -142,7 +142,7 @@ TSerialClientParams TSerialClientTaskRunner::GetSerialClientParams(const Json::V
     TSerialClientParams params;
 
     auto deviceId = request["device_id"];
-    if (deviceId.isString()) {
+    if (SerialDriver && deviceId.isString()) {
         auto id = deviceId.asString();
         for (auto driver: SerialDriver->GetPortDrivers()) {
             for (auto device: driver->GetSerialClient()->GetDevices()) {
-- 
2.43.0


From 652da8eb1dcb224d906a09ed4a70113b3fb84101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 63/82] fix: firmware update states can be published in wrong
 order

The state was published after releasing of the mutex, so an outdated state could remain in the topic
---
 src/rpc/rpc_fw_update_state.cpp | 5 +++++
 src/rpc/rpc_fw_update_state.h   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/rpc/rpc_fw_update_state.cpp b/src/rpc/rpc_fw_update_state.cpp
index 558d3a7..c0b1677 100644
--- a/src/rpc/rpc_fw_update_state.cpp
+++ b/src/rpc/rpc_fw_update_state.cpp
@@ -26,6 +26,7 @@ TFwUpdateState::TFwUpdateState(TStatePublishFn publishFn, const std::string& top
 
 void TFwUpdateState::Update(const TDeviceUpdateInfo& info)
 {
+    std::lock_guard<std::mutex> publishLock(PublishMutex);
     std::string json;
     {
         std::lock_guard<std::mutex> lock(Mutex);
@@ -68,6 +69,7 @@ void TFwUpdateState::Update(const TDeviceUpdateInfo& info)
 
 void TFwUpdateState::Remove(int slaveId, const std::string& portPath, const std::string& type)
 {
+    std::lock_guard<std::mutex> publishLock(PublishMutex);
     std::string json;
     {
         std::lock_guard<std::mutex> lock(Mutex);
@@ -89,6 +91,7 @@ void TFwUpdateState::SetError(int slaveId,
                               const std::string& errorMessage,
                               const Json::Value& metadata)
 {
+    std::lock_guard<std::mutex> publishLock(PublishMutex);
     std::string json;
     {
         std::lock_guard<std::mutex> lock(Mutex);
@@ -115,6 +118,7 @@ bool TFwUpdateState::HasActiveUpdate(int slaveId, const std::string& portPath) c
 
 void TFwUpdateState::ClearError(int slaveId, const std::string& portPath, const std::string& type)
 {
+    std::lock_guard<std::mutex> publishLock(PublishMutex);
     std::string json;
     {
         std::lock_guard<std::mutex> lock(Mutex);
@@ -133,6 +137,7 @@ void TFwUpdateState::ClearError(int slaveId, const std::string& portPath, const
 
 void TFwUpdateState::Reset()
 {
+    std::lock_guard<std::mutex> publishLock(PublishMutex);
     std::string json;
     {
         std::lock_guard<std::mutex> lock(Mutex);
diff --git a/src/rpc/rpc_fw_update_state.h b/src/rpc/rpc_fw_update_state.h
index aa82f47..a0a83ec 100644
--- a/src/rpc/rpc_fw_update_state.h
+++ b/src/rpc/rpc_fw_update_state.h
@@ -54,6 +54,8 @@ private:
     void Publish(const std::string& json);
     std::string ToJson() const;
 
+    // Keeps the order of publications the same as the order of changes
+    std::mutex PublishMutex;
     mutable std::mutex Mutex;
     std::vector<TDeviceUpdateInfo> Devices;
     TStatePublishFn PublishFn;
-- 
2.43.0


From 512d28f48078db4d4856b49f1007e4c2ff6d7be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:30 +0000
Subject: [PATCH 64/82] fix: idle port executor is removed with a pending task

A task added to an idle executor was never run, if the executor was removed before its thread
has taken the task. Stop of the executor could be missed by its thread
---
 src/rpc/rpc_port_driver_list.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rpc/rpc_port_driver_list.cpp b/src/rpc/rpc_port_driver_list.cpp
index 59116d3..9dce456 100644
--- a/src/rpc/rpc_port_driver_list.cpp
+++ b/src/rpc/rpc_port_driver_list.cpp
@@ -80,7 +80,6 @@ TSerialClientTaskExecutor::TSerialClientTaskExecutor(PFeaturePort port): Port(po
             if (Tasks.empty()) {
                 continue;
             }
-            Idle = false;
             std::vector<PSerialClientTask> tasksToRun;
             Tasks.swap(tasksToRun);
             lock.unlock();
@@ -102,18 +101,23 @@ TSerialClientTaskExecutor::TSerialClientTaskExecutor(PFeaturePort port): Port(po
 
 TSerialClientTaskExecutor::~TSerialClientTaskExecutor()
 {
-    Running = false;
+    {
+        std::unique_lock<std::mutex> lock(Mutex);
+        Running = false;
+    }
     TasksCv.notify_all();
     Thread.join();
 }
 
 void TSerialClientTaskExecutor::AddTask(PSerialClientTask task)
 {
-    if (!Running) {
-        return;
-    }
     {
         std::unique_lock<std::mutex> lock(Mutex);
+        if (!Running) {
+            return;
+        }
+        // The executor must not be removed until the task is completed
+        Idle = false;
         Tasks.push_back(task);
     }
     TasksCv.notify_all();
-- 
2.43.0


From b41ca5760154e5c469f476a2c51cf19ec590ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 65/82] fix: answers of a device are shifted after a late one

A late answer of uniel, dooya, windeco, energomera_ce, mercury and somfy devices
was taken as the answer to the next request, all following ones too.
---
 src/devices/curtains/dooya_device.cpp     |  4 +++-
 src/devices/curtains/somfy_sdn_device.cpp |  4 +++-
 src/devices/curtains/windeco_device.cpp   |  1 +
 src/devices/em_device.cpp                 |  1 +
 src/devices/energomera_ce_device.cpp      |  4 +++-
 src/devices/mercury200_device.cpp         |  4 +++-
 src/devices/s2k_device.cpp                |  1 +
 src/devices/uniel_device.cpp              |  4 +++-
 src/serial_device.cpp                     | 12 ++++++++++++
 src/serial_device.h                       |  7 +++++++
 10 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/devices/curtains/dooya_device.cpp b/src/devices/curtains/dooya_device.cpp
index 65e2ea2..3ffc451 100644
--- a/src/devices/curtains/dooya_device.cpp
+++ b/src/devices/curtains/dooya_device.cpp
@@ -122,7 +122,9 @@ Dooya::TDevice::TDevice(PDeviceConfig config, PProtocol protocol)
       OpenCommand{MakeRequest(SlaveId, {CONTROL, OPEN}), CONTROL_RESPONSE_SIZE},
       CloseCommand{MakeRequest(SlaveId, {CONTROL, CLOSE}), CONTROL_RESPONSE_SIZE},
       GetPositionCommand{MakeRequest(SlaveId, {READ, GET_POSITION, GET_POSITION_DATA_LENGTH}), RESPONSE_SIZE}
-{}
+{
+    SetSkipLateAnswers();
+}
 
 std::vector<uint8_t> Dooya::TDevice::ExecCommand(TPort& port, const TRequest& request)
 {
diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index a445772..cd18185 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -207,7 +207,9 @@ Somfy::TDevice::TDevice(PDeviceConfig config,
       CloseCommand{MakeRequest(Somfy::CTRL_MOVETO, SlaveId, nodeType, {1, 0, 0, 0})},
       NodeType(nodeType),
       ApplicationMode(applicationMode)
-{}
+{
+    SetSkipLateAnswers();
+}
 
 std::vector<uint8_t> Somfy::TDevice::ExecCommand(TPort& port, const std::vector<uint8_t>& request)
 {
diff --git a/src/devices/curtains/windeco_device.cpp b/src/devices/curtains/windeco_device.cpp
index 376a30d..448a306 100644
--- a/src/devices/curtains/windeco_device.cpp
+++ b/src/devices/curtains/windeco_device.cpp
@@ -73,6 +73,7 @@ WinDeco::TDevice::TDevice(PDeviceConfig config, PProtocol protocol)
       GetPositionCommand{MakeRequest(ZoneId, CurtainId, 0x06)},
       GetStateCommand{MakeRequest(ZoneId, CurtainId, 0x07)}
 {
+    SetSkipLateAnswers();
     if (CurtainId == 0) {
         throw TSerialDeviceException("Curtain id can't be 0");
     }
diff --git a/src/devices/em_device.cpp b/src/devices/em_device.cpp
index 493ed81..6313054 100644
--- a/src/devices/em_device.cpp
+++ b/src/devices/em_device.cpp
@@ -4,6 +4,7 @@ TEMDevice::TEMDevice(PDeviceConfig config, PProtocol protocol)
     : TSerialDevice(config, protocol),
       TUInt32SlaveId(config->SlaveId, true)
 {
+    SetSkipLateAnswers();
     if (HasBroadcastSlaveId) {
         SlaveId = 0;
     }
diff --git a/src/devices/energomera_ce_device.cpp b/src/devices/energomera_ce_device.cpp
index 0881d2f..9268688 100644
--- a/src/devices/energomera_ce_device.cpp
+++ b/src/devices/energomera_ce_device.cpp
@@ -185,7 +185,9 @@ void TEnergomeraCeDevice::Register(TSerialDeviceFactory& factory)
 TEnergomeraCeDevice::TEnergomeraCeDevice(PDeviceConfig config, PProtocol protocol)
     : TSerialDevice(config, protocol),
       TUInt32SlaveId(config->SlaveId)
-{}
+{
+    SetSkipLateAnswers();
+}
 
 TRegisterValue TEnergomeraCeDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig& reg)
 {
diff --git a/src/devices/mercury200_device.cpp b/src/devices/mercury200_device.cpp
index 67667e3..9bb64eb 100644
--- a/src/devices/mercury200_device.cpp
+++ b/src/devices/mercury200_device.cpp
@@ -45,7 +45,9 @@ void TMercury200Device::Register(TSerialDeviceFactory& factory)
 TMercury200Device::TMercury200Device(PDeviceConfig config, PProtocol protocol)
     : TSerialDevice(config, protocol),
       TUInt32SlaveId(config->SlaveId)
-{}
+{
+    SetSkipLateAnswers();
+}
 
 std::vector<uint8_t> TMercury200Device::ExecCommand(TPort& port, uint8_t cmd)
 {
diff --git a/src/devices/s2k_device.cpp b/src/devices/s2k_device.cpp
index 3a4bc9a..7b421fb 100644
--- a/src/devices/s2k_device.cpp
+++ b/src/devices/s2k_device.cpp
@@ -31,6 +31,7 @@ TS2KDevice::TS2KDevice(PDeviceConfig config, PProtocol protocol)
     : TSerialDevice(config, protocol),
       TUInt32SlaveId(config->SlaveId)
 {
+    SetSkipLateAnswers();
     RelayState[1] = 2;
     RelayState[2] = 2;
     RelayState[3] = 2;
diff --git a/src/devices/uniel_device.cpp b/src/devices/uniel_device.cpp
index d921577..1bd0380 100644
--- a/src/devices/uniel_device.cpp
+++ b/src/devices/uniel_device.cpp
@@ -41,7 +41,9 @@ void TUnielDevice::Register(TSerialDeviceFactory& factory)
 TUnielDevice::TUnielDevice(PDeviceConfig config, PProtocol protocol)
     : TSerialDevice(config, protocol),
       TUInt32SlaveId(config->SlaveId)
-{}
+{
+    SetSkipLateAnswers();
+}
 
 void TUnielDevice::WriteCommand(TPort& port, uint8_t cmd, uint8_t mod, uint8_t b1, uint8_t b2, uint8_t b3)
 {
diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index e535bb5..498495f 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -92,6 +92,8 @@ TSerialDevice::TSerialDevice(PDeviceConfig config, PProtocol protocol)
       LastSuccessfulCycle(),
       ConnectionState(TDeviceConnectionState::UNKNOWN),
       PreparedWithoutSetup(false),
+      SkipLateAnswers(false),
+      LateAnswerIsPossible(false),
       RemainingFailCycles(0),
       SupportsHoles(true),
       SporadicOnly(true),
@@ -168,6 +170,10 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
     for (auto& reg: range->RegisterList()) {
         try {
             if (reg->GetAvailable() != TRegisterAvailability::UNAVAILABLE) {
+                if (LateAnswerIsPossible) {
+                    port.SkipNoise();
+                    LateAnswerIsPossible = false;
+                }
                 port.SleepSinceLastInteraction(DeviceConfig()->RequestDelay);
                 auto value = ReadRegisterImpl(port, *reg->GetConfig());
                 SetTransferResult(true);
@@ -196,6 +202,7 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
             auto& logger = (ConnectionState == TDeviceConnectionState::DISCONNECTED) ? Debug : Warn;
             LOG(logger) << "TSerialDevice::ReadRegister(): " << e.what() << " [slave_id is "
                         << reg->Device()->ToString() + "]";
+            LateAnswerIsPossible = SkipLateAnswers;
             SetTransferResult(false);
             if (breakOnError) {
                 throw;
@@ -205,6 +212,11 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
     InvalidateReadCache();
 }
 
+void TSerialDevice::SetSkipLateAnswers()
+{
+    SkipLateAnswers = true;
+}
+
 void TSerialDevice::SetTransferResult(bool ok)
 {
     if (ok) {
diff --git a/src/serial_device.h b/src/serial_device.h
index 272e3b3..601b73c 100644
--- a/src/serial_device.h
+++ b/src/serial_device.h
@@ -288,6 +288,10 @@ protected:
     virtual TRegisterValue ReadRegisterImpl(TPort& port, const TRegisterConfig& reg);
     virtual void WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, const TRegisterValue& value);
 
+    //! Answers of the protocol can't be reliably matched with requests.
+    //! If an answer has not been received in time, it must be skipped before the next request
+    void SetSkipLateAnswers();
+
 private:
     PDeviceConfig _DeviceConfig;
     PProtocol _Protocol;
@@ -298,6 +302,9 @@ private:
     //! so it can't make the device connected
     bool PreparedWithoutSetup;
 
+    bool SkipLateAnswers;
+    bool LateAnswerIsPossible;
+
     int RemainingFailCycles;
     bool SupportsHoles;
     bool SporadicOnly;
-- 
2.43.0


From c2cedc92a2aa78231ed193204eb74641827bfde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 66/82] fix: milur with 4 bytes address: error codes are not
 recognized

A session closed by the meter has never been opened again.
---
 src/devices/milur_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/devices/milur_device.cpp b/src/devices/milur_device.cpp
index fda9f3b..e304af6 100644
--- a/src/devices/milur_device.cpp
+++ b/src/devices/milur_device.cpp
@@ -70,12 +70,12 @@ bool TMilurDevice::ConnectionSetup(TPort& port)
 
 TEMDevice::ErrorType TMilurDevice::CheckForException(uint8_t* frame, int len, const char** message)
 {
-    if (len != 6 || !(frame[1] & 0x80)) {
+    if (len != 5 + SlaveIdWidth || !(frame[SlaveIdWidth] & 0x80)) {
         *message = 0;
         return TEMDevice::NO_ERROR;
     }
 
-    switch (frame[2]) {
+    switch (frame[SlaveIdWidth + 1]) {
         case 0x01:
             *message = "Illegal function";
             break;
-- 
2.43.0


From b205f6701c7ea03b2e7d3908fea0d75ce7c50e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 67/82] fix: endless requests to a milur or mercury230 closing
 every session

---
 src/devices/em_device.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/devices/em_device.cpp b/src/devices/em_device.cpp
index 6313054..a675015 100644
--- a/src/devices/em_device.cpp
+++ b/src/devices/em_device.cpp
@@ -86,9 +86,12 @@ void TEMDevice::Talk(TPort& port,
     EnsureSlaveConnected(port);
     WriteCommand(port, cmd, payload, payload_len);
     try {
-        while (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
+        if (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
             EnsureSlaveConnected(port, true);
             WriteCommand(port, cmd, payload, payload_len);
+            if (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
+                throw TSerialDeviceTransientErrorException("session is closed by the meter");
+            }
         }
     } catch (const TSerialDeviceTransientErrorException& e) {
         port.SkipNoise();
-- 
2.43.0


From 94209c23c1a8213c48334ff0a2e52d336c96cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 68/82] fix: service is terminated by a malformed answer of
 ivtm

std::stoul throws std::invalid_argument
---
 src/devices/ivtm_device.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/devices/ivtm_device.cpp b/src/devices/ivtm_device.cpp
index eea57fd..74a21e0 100644
--- a/src/devices/ivtm_device.cpp
+++ b/src/devices/ivtm_device.cpp
@@ -66,6 +66,9 @@ bool TIVTMDevice::DecodeASCIIBytes(uint8_t* buf, uint8_t* result, uint8_t len_by
 
 uint8_t TIVTMDevice::DecodeASCIIByte(uint8_t* buf)
 {
+    if (!isxdigit(buf[0]) || !isxdigit(buf[1])) {
+        throw TSerialDeviceTransientErrorException("hexadecimal digits are expected in response");
+    }
     std::string s(buf, buf + 2);
     return stoul(s, nullptr, 16);
 }
@@ -129,7 +132,7 @@ TRegisterValue TIVTMDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig&
 
     auto addr = GetUint32RegisterAddress(reg.GetAddress());
     WriteCommand(port, SlaveId, addr, reg.GetByteWidth());
-    uint8_t response[4];
+    uint8_t response[4] = {};
     ReadResponse(port, SlaveId, response, reg.GetByteWidth());
 
     uint8_t* p = response; //&response[(address % 2) * 4];
-- 
2.43.0


From f25d453660ae44cca9a3ab1fa93a7fef034e17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 69/82] fix: a_ok: short and damaged answers are accepted

---
 src/devices/curtains/a_ok_device.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/devices/curtains/a_ok_device.cpp b/src/devices/curtains/a_ok_device.cpp
index 71123b3..7bb499b 100644
--- a/src/devices/curtains/a_ok_device.cpp
+++ b/src/devices/curtains/a_ok_device.cpp
@@ -122,6 +122,11 @@ TRegisterValue Aok::TDevice::GetCachedResponse(TPort& port,
         req.Data = MakeRequest(MotorId, LowChannelId, HighChannelId, command, data);
         req.ResponseSize = MOTOR_STATUS_RESPONSE_SIZE;
         auto resp = ExecCommand(port, req);
+        if (resp.size() != MOTOR_STATUS_RESPONSE_SIZE || resp[0] != RESPONSE ||
+            resp.back() != CalcCrc({resp.begin() + 1, resp.end() - CRC_SIZE}))
+        {
+            throw TSerialDeviceTransientErrorException("Malformed response");
+        }
         // some tabular motors can answer any request,
         // so check that motor id in the response matches the requested one
         if (resp[MOTOR_ID_POS] != MotorId || resp[LOW_CHANNEL_ID_POS] != LowChannelId ||
-- 
2.43.0


From 502b5f0158025e2fab0b3823effa3816bb8e05de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 70/82] fix: lls: CRC and bytes out of a short answer are taken
 as data

---
 src/devices/lls_device.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/devices/lls_device.cpp b/src/devices/lls_device.cpp
index 0ede103..31be729 100644
--- a/src/devices/lls_device.cpp
+++ b/src/devices/lls_device.cpp
@@ -85,6 +85,9 @@ std::vector<uint8_t> TLLSDevice::ExecCommand(TPort& port, uint8_t cmd)
     port.SleepSinceLastInteraction(GetFrameTimeout(port));
 
     int len = port.ReadFrame(buf, RESPONSE_BUF_LEN, GetResponseTimeout(port), GetFrameTimeout(port)).Count;
+    if (len < HEADER_SZ + 1) {
+        throw TSerialDeviceTransientErrorException("frame too short");
+    }
     if (buf[0] != RESPONSE_PREFIX) {
         throw TSerialDeviceTransientErrorException("invalid response prefix");
     }
@@ -100,7 +103,7 @@ std::vector<uint8_t> TLLSDevice::ExecCommand(TPort& port, uint8_t cmd)
 
     uint8_t* payload = buf + HEADER_SZ;
     std::vector<uint8_t> result = {0};
-    result.assign(payload, payload + len - HEADER_SZ);
+    result.assign(payload, payload + len - HEADER_SZ - 1);
     return CmdResultCache.insert({cmd, result}).first->second;
 }
 
@@ -109,6 +112,10 @@ TRegisterValue TLLSDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig&
     uint8_t cmd = GetUint32RegisterAddress(reg.GetAddress());
     auto result = ExecCommand(port, cmd);
 
+    if (result.size() < reg.GetDataOffset() + reg.GetByteWidth()) {
+        throw TSerialDeviceTransientErrorException("not enough data in response");
+    }
+
     int result_buf[8] = {};
 
     for (uint32_t i = 0; i < reg.GetByteWidth(); ++i) {
-- 
2.43.0


From ab3ad5f72137a088c841700bc2b63d118b566b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 71/82] fix: mercury200: CRC and bytes out of a short answer
 are taken as data

---
 src/devices/mercury200_device.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/devices/mercury200_device.cpp b/src/devices/mercury200_device.cpp
index 9bb64eb..02d4679 100644
--- a/src/devices/mercury200_device.cpp
+++ b/src/devices/mercury200_device.cpp
@@ -11,6 +11,7 @@ namespace
     const size_t RESPONSE_BUF_LEN = 100;
     const size_t REQUEST_LEN = 7;
     const ptrdiff_t HEADER_SZ = 5;
+    const ptrdiff_t CRC_SZ = 2;
 
     const TRegisterTypes RegisterTypes{{0, "param8", "value", U8, true},
                                        {0, "param16", "value", BCD16, true},
@@ -56,20 +57,20 @@ std::vector<uint8_t> TMercury200Device::ExecCommand(TPort& port, uint8_t cmd)
         return it->second;
     }
 
-    uint8_t buf[100] = {0x00};
+    uint8_t buf[RESPONSE_BUF_LEN] = {0x00};
     auto readn = RequestResponse(port, SlaveId, cmd, buf);
-    if (readn < 4) { // fixme 4
+    if (readn < HEADER_SZ + CRC_SZ) {
         throw TSerialDeviceTransientErrorException("mercury200: read frame too short for command response");
     }
     if (IsBadHeader(SlaveId, cmd, buf)) {
         throw TSerialDeviceTransientErrorException("mercury200: bad response header for command");
     }
-    if (IsCrcValid(buf, readn)) {
+    if (IsCrcValid(buf, readn - CRC_SZ)) {
         throw TSerialDeviceTransientErrorException("mercury200: bad CRC for command");
     }
     uint8_t* payload = buf + HEADER_SZ;
     std::vector<uint8_t> result = {0};
-    result.assign(payload, payload + readn - HEADER_SZ);
+    result.assign(payload, payload + readn - HEADER_SZ - CRC_SZ);
     return CmdResultCache.insert({cmd, result}).first->second;
 }
 
-- 
2.43.0


From 0d12a1cec961a59bcf7cd19757ff951942d7bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:41 +0000
Subject: [PATCH 72/82] fix: service is terminated by an answer of neva without
 a value

---
 src/devices/neva_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/devices/neva_device.cpp b/src/devices/neva_device.cpp
index 0ac0c44..9dea80e 100644
--- a/src/devices/neva_device.cpp
+++ b/src/devices/neva_device.cpp
@@ -81,7 +81,7 @@ TRegisterValue TNevaDevice::GetRegisterValue(const TRegisterConfig& reg, const s
     std::string value(v.substr(1, v.size() - 2));
     std::vector<double> result(5);
     int ret = sscanf(value.c_str(), "%lf,%lf,%lf,%lf,%lf", &result[0], &result[1], &result[2], &result[3], &result[4]);
-    result.resize(ret);
+    result.resize(std::max(ret, 0)); // it is EOF if there is nothing but spaces
 
     size_t val_index = RegisterTypeValueIndices[reg.TypeName];
 
-- 
2.43.0


From 519d5504a5a35723bd4c87347d17e2ccc43b2043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:41 +0000
Subject: [PATCH 73/82] fix: somfy: short answers are read out of bounds,
 missing data is taken as 0

---
 src/devices/curtains/somfy_sdn_device.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index cd18185..f366101 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -51,8 +51,7 @@ namespace
 
     void Check(uint32_t address, uint8_t header, const std::vector<uint8_t>& bytes)
     {
-        size_t len = GetLen(bytes[1]);
-        if (bytes.size() < 2 || bytes.size() != len) {
+        if (bytes.size() < DATA_POS + CRC_SIZE || bytes.size() != GetLen(bytes[1])) {
             throw TSerialDeviceTransientErrorException("Bad response size");
         }
 
@@ -81,7 +80,7 @@ namespace
         if (static_cast<size_t>(size) < 2 + CRC_SIZE + 2 * ADDRESS_SIZE) {
             return false;
         }
-        return static_cast<size_t>(size) == ~GetLen(buf[1]);
+        return static_cast<size_t>(size) == GetLen(~buf[1]);
     }
 
     class TSomfyAddress: public TUint32RegisterAddress
@@ -320,6 +319,9 @@ TRegisterValue Somfy::TDevice::GetCachedResponse(TPort& port,
         WriteCache[requestHeader] = data;
     }
     if (bitOffset || bitWidth) {
+        if (bitOffset + bitWidth > WriteCache[requestHeader].size() * 8) {
+            throw TSerialDeviceTransientErrorException("Not enough data in response");
+        }
         return TRegisterValue{(val.Get<uint64_t>() >> bitOffset) & GetLSBMask(bitWidth)};
     }
     return val;
-- 
2.43.0


From 92efb8c344f2ac20e087480fbdc06947e22e62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:41 +0000
Subject: [PATCH 74/82] fix: pulsar: late answer to a failed request is taken
 as a value of another register

---
 src/devices/pulsar_device.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/devices/pulsar_device.cpp b/src/devices/pulsar_device.cpp
index 0004cc2..b5096a4 100644
--- a/src/devices/pulsar_device.cpp
+++ b/src/devices/pulsar_device.cpp
@@ -196,10 +196,10 @@ TRegisterValue TPulsarDevice::ReadDataRegister(TPort& port, const TRegisterConfi
     uint32_t mask = 1 << addr;
 
     // send data request and receive response
-    WriteDataRequest(port, SlaveId, mask, RequestID);
-    ReadResponse(port, SlaveId, payload, reg.GetByteWidth(), RequestID);
-
-    ++RequestID;
+    // every request has its own id, a late answer to a failed one must not be accepted
+    auto id = RequestID++;
+    WriteDataRequest(port, SlaveId, mask, id);
+    ReadResponse(port, SlaveId, payload, reg.GetByteWidth(), id);
 
     // decode little-endian double64_t value
     return TRegisterValue{ReadHex(payload, reg.GetByteWidth(), false)};
@@ -211,10 +211,9 @@ TRegisterValue TPulsarDevice::ReadSysTimeRegister(TPort& port, const TRegisterCo
     uint8_t payload[6];
 
     // send system time request and receive response
-    WriteSysTimeRequest(port, SlaveId, RequestID);
-    ReadResponse(port, SlaveId, payload, sizeof(payload), RequestID);
-
-    ++RequestID;
+    auto id = RequestID++;
+    WriteSysTimeRequest(port, SlaveId, id);
+    ReadResponse(port, SlaveId, payload, sizeof(payload), id);
 
     // decode little-endian double64_t value
     return TRegisterValue{ReadHex(payload, sizeof(payload), false)};
-- 
2.43.0


From 7e4bc52fdb3b6453a34e6db1506f9dec8714c1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:41 +0000
Subject: [PATCH 75/82] fix: energomera_ce: answers of other devices and to
 other commands are accepted

---
 src/devices/energomera_ce_device.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/devices/energomera_ce_device.cpp b/src/devices/energomera_ce_device.cpp
index 9268688..4cf804f 100644
--- a/src/devices/energomera_ce_device.cpp
+++ b/src/devices/energomera_ce_device.cpp
@@ -25,7 +25,9 @@ namespace
     const size_t MAX_RESPONSE_SIZE = (PACKET_ENVELOPE_SIZE + RESPONSE_HEADER_SIZE + MAX_PAYLOAD_SIZE) * 2;
     const size_t MIN_RESPONSE_SIZE = PACKET_ENVELOPE_SIZE + RESPONSE_HEADER_SIZE + 1;
 
+    const size_t RESPONSE_SLAVE_ID_POS = 4;
     const size_t RESPONSE_SERV_POS = 6;
+    const size_t RESPONSE_COMMAND_POS = 7;
     const size_t RESPONSE_DATA_POS = 9;
 
     const size_t ENERGY_RESPONSE_DATA_SIZE = 7;
@@ -108,7 +110,7 @@ namespace
         return data;
     }
 
-    void CheckResponse(std::vector<uint8_t>& data)
+    void CheckResponse(const std::vector<uint8_t>& data, uint16_t slaveId, const std::vector<uint8_t>& command)
     {
         if (data.size() < MIN_RESPONSE_SIZE) {
             throw TSerialDeviceTransientErrorException("frame too short");
@@ -119,10 +121,16 @@ namespace
         if (CalcCrc(data.begin() + 1, data.end() - 2) != *(data.end() - 2)) {
             throw TSerialDeviceTransientErrorException("invalid CRC");
         }
+        if (GetFrom<uint16_t>(data.begin() + RESPONSE_SLAVE_ID_POS) != slaveId) {
+            throw TSerialDeviceTransientErrorException("invalid device address");
+        }
         if (((data[RESPONSE_SERV_POS] >> 4) & 0x7) == CLASS_ACCESS_ERROR) {
             throw TSerialDeviceTransientErrorException("error in response, code: " +
                                                        WBMQTT::HexDump(&data[RESPONSE_DATA_POS], 1));
         }
+        if (!std::equal(data.begin() + RESPONSE_COMMAND_POS, data.begin() + RESPONSE_DATA_POS, command.begin())) {
+            throw TSerialDeviceTransientErrorException("response to another command");
+        }
     }
 
     size_t GetResponseDataSize(const std::vector<uint8_t>& data)
@@ -191,9 +199,8 @@ TEnergomeraCeDevice::TEnergomeraCeDevice(PDeviceConfig config, PProtocol protoco
 
 TRegisterValue TEnergomeraCeDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig& reg)
 {
-    auto request = MakePacket(SlaveId,
-                              DeviceConfig()->Password,
-                              MakeCommandFromRegisterAddress(GetUint32RegisterAddress(reg.GetAddress())));
+    auto command = MakeCommandFromRegisterAddress(GetUint32RegisterAddress(reg.GetAddress()));
+    auto request = MakePacket(SlaveId, DeviceConfig()->Password, command);
     port.WriteBytes(request.data(), request.size());
     std::vector<uint8_t> response(MAX_RESPONSE_SIZE);
     auto res = port.ReadFrame(response.data(),
@@ -203,7 +210,7 @@ TRegisterValue TEnergomeraCeDevice::ReadRegisterImpl(TPort& port, const TRegiste
                               FrameComplete);
     response.resize(res.Count);
     DecodeByteStuffing(response, BYTE_STUFFING_RULES);
-    CheckResponse(response);
+    CheckResponse(response, SlaveId, command);
     switch (reg.Type) {
         case TEnergomeraCeRegisterType::DEFAULT:
             return GetValue(response);
-- 
2.43.0


From f701f7c80127e69596ec5846f0f465611258e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:08 +0000
Subject: [PATCH 76/82] fix: somfy: bytes after the 8th one of an answer
 corrupt values

---
 src/devices/curtains/somfy_sdn_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index f366101..81a2277 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -314,12 +314,12 @@ TRegisterValue Somfy::TDevice::GetCachedResponse(TPort& port,
     } else {
         auto req = MakeRequest(requestHeader, SlaveId, NodeType);
         auto data = ParseStatusReport(SlaveId, responseHeader, ExecCommand(port, req));
-        val.Set(Get<uint64_t>(data.begin(), data.end()));
+        val.Set(Get<uint64_t>(data.begin(), data.begin() + std::min(data.size(), sizeof(uint64_t))));
         DataCache[requestHeader] = val;
         WriteCache[requestHeader] = data;
     }
     if (bitOffset || bitWidth) {
-        if (bitOffset + bitWidth > WriteCache[requestHeader].size() * 8) {
+        if (bitOffset + bitWidth > std::min(WriteCache[requestHeader].size(), sizeof(uint64_t)) * 8) {
             throw TSerialDeviceTransientErrorException("Not enough data in response");
         }
         return TRegisterValue{(val.Get<uint64_t>() >> bitOffset) & GetLSBMask(bitWidth)};
-- 
2.43.0


From 2b4cf2502b872898ae912242763e23c8d0ace062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 77/82] fix: a_ok: writing of a zone bit reverts the previously
 written one

The state of zone bits read before the first writing was cached till the next polling,
so the next writing used it and the next polling showed it.
---
 src/devices/curtains/a_ok_device.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/devices/curtains/a_ok_device.cpp b/src/devices/curtains/a_ok_device.cpp
index 7bb499b..9227ef3 100644
--- a/src/devices/curtains/a_ok_device.cpp
+++ b/src/devices/curtains/a_ok_device.cpp
@@ -211,6 +211,8 @@ void Aok::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, co
             auto addr = GetUint32RegisterAddress(reg.GetWriteAddress());
             TRegisterValue val =
                 GetCachedResponse(port, CURTAIN_MOTOR_STATUS, CURTAIN_MOTOR_STATUS, MOTOR_STATUS_ZONEBIT_OFFSET * 8, 8);
+            // The response is outdated after writing
+            InvalidateReadCache();
             TRequest req;
             req.Data = MakeRequest(MotorId,
                                    LowChannelId,
-- 
2.43.0


From 83085cb1a7de3ca8ec592e1f6936b1fd46a08046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 78/82] fix: somfy: registers with write_address can't be
 written

Data to complete a setting were looked for by the header of writing instead of the one of reading.
---
 src/devices/curtains/somfy_sdn_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index 81a2277..e04d495 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -272,7 +272,7 @@ void Somfy::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg,
             return;
         }
         case PARAM: {
-            auto requestHeader = GetUint32RegisterAddress(reg.GetWriteAddress());
+            auto requestHeader = GetUint32RegisterAddress(reg.GetAddress());
             auto it = WriteCache.find(requestHeader);
             if (it == WriteCache.end()) {
                 throw TSerialDeviceTransientErrorException("Register " + reg.ToString() +
-- 
2.43.0


From b433363f7e79034f4f136f42a8f5c3dcb26b6159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 79/82] fix: s2k: answers to other requests are accepted

The number of a relay was taken out of an answer without a check, so memory could be corrupted.
An answer with a value of another configuration was accepted.
---
 src/devices/s2k_device.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/devices/s2k_device.cpp b/src/devices/s2k_device.cpp
index 7b421fb..e07ceb4 100644
--- a/src/devices/s2k_device.cpp
+++ b/src/devices/s2k_device.cpp
@@ -94,7 +94,9 @@ void TS2KDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, cons
     port.WriteBytes(command, 7);
     uint8_t response[256];
     int size = port.ReadFrame(response, 256, GetResponseTimeout(port), GetFrameTimeout(port)).Count;
-    if (size != 6 || response[0] != (uint8_t)SlaveId || response[1] != 5 || response[2] != 0x16) {
+    if (size != 6 || response[0] != (uint8_t)SlaveId || response[1] != 5 || response[2] != 0x16 ||
+        response[3] != command[4])
+    {
         throw TSerialDeviceTransientErrorException("incorrect response for 0x15 command");
     }
     if (response[5] != CrcS2K(response, 5)) {
@@ -129,7 +131,9 @@ TRegisterValue TS2KDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig&
             port.WriteBytes(command, 7);
             uint8_t response[256];
             int size = port.ReadFrame(response, 256, GetResponseTimeout(port), GetFrameTimeout(port)).Count;
-            if (size != 6 || response[0] != (uint8_t)SlaveId || response[1] != 0x5 || response[2] != 0x6) {
+            if (size != 6 || response[0] != (uint8_t)SlaveId || response[1] != 0x5 || response[2] != 0x6 ||
+                response[3] != command[4])
+            {
                 throw TSerialDeviceTransientErrorException("incorrect response for 0x5 command");
             }
             if (response[5] != CrcS2K(response, 5)) {
-- 
2.43.0


From 0751274a8b90bd77fbf4abecbe6715f24183b4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:03 +0000
Subject: [PATCH 80/82] fix: answer to a late command is taken as an answer to
 the next request

Position of dooya and windeco motors was shown as a value of another register
after a late answer to a command or to a repeated request, as its answer wasn't skipped.
---
 src/serial_device.cpp | 24 ++++++++++++++++--------
 src/serial_device.h   |  6 ++++--
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 498495f..0a639ee 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -92,8 +92,8 @@ TSerialDevice::TSerialDevice(PDeviceConfig config, PProtocol protocol)
       LastSuccessfulCycle(),
       ConnectionState(TDeviceConnectionState::UNKNOWN),
       PreparedWithoutSetup(false),
-      SkipLateAnswers(false),
-      LateAnswerIsPossible(false),
+      MaxLateAnswersToSkip(0),
+      LateAnswersToSkip(0),
       RemainingFailCycles(0),
       SupportsHoles(true),
       SporadicOnly(true),
@@ -139,12 +139,14 @@ void TSerialDevice::InvalidateReadCache()
 void TSerialDevice::WriteRegister(TPort& port, PRegister reg, const TRegisterValue& value)
 {
     try {
+        SkipLateAnswer(port);
         WriteRegisterImpl(port, *reg->GetConfig(), value);
         SetTransferResult(true);
     } catch (const TSerialDevicePermanentRegisterException& e) {
         SetTransferResult(true);
         throw;
     } catch (const TSerialDeviceException& ex) {
+        LateAnswersToSkip = MaxLateAnswersToSkip;
         SetTransferResult(false);
         throw;
     }
@@ -170,10 +172,7 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
     for (auto& reg: range->RegisterList()) {
         try {
             if (reg->GetAvailable() != TRegisterAvailability::UNAVAILABLE) {
-                if (LateAnswerIsPossible) {
-                    port.SkipNoise();
-                    LateAnswerIsPossible = false;
-                }
+                SkipLateAnswer(port);
                 port.SleepSinceLastInteraction(DeviceConfig()->RequestDelay);
                 auto value = ReadRegisterImpl(port, *reg->GetConfig());
                 SetTransferResult(true);
@@ -202,7 +201,7 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
             auto& logger = (ConnectionState == TDeviceConnectionState::DISCONNECTED) ? Debug : Warn;
             LOG(logger) << "TSerialDevice::ReadRegister(): " << e.what() << " [slave_id is "
                         << reg->Device()->ToString() + "]";
-            LateAnswerIsPossible = SkipLateAnswers;
+            LateAnswersToSkip = MaxLateAnswersToSkip;
             SetTransferResult(false);
             if (breakOnError) {
                 throw;
@@ -214,7 +213,16 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
 
 void TSerialDevice::SetSkipLateAnswers()
 {
-    SkipLateAnswers = true;
+    // Late answer can be taken as an answer to a repeated request, so the answer to the repeated one is extra
+    MaxLateAnswersToSkip = 2;
+}
+
+void TSerialDevice::SkipLateAnswer(TPort& port)
+{
+    if (LateAnswersToSkip > 0) {
+        port.SkipNoise();
+        --LateAnswersToSkip;
+    }
 }
 
 void TSerialDevice::SetTransferResult(bool ok)
diff --git a/src/serial_device.h b/src/serial_device.h
index 601b73c..564af1d 100644
--- a/src/serial_device.h
+++ b/src/serial_device.h
@@ -302,8 +302,10 @@ private:
     //! so it can't make the device connected
     bool PreparedWithoutSetup;
 
-    bool SkipLateAnswers;
-    bool LateAnswerIsPossible;
+    int MaxLateAnswersToSkip;
+    int LateAnswersToSkip;
+
+    void SkipLateAnswer(TPort& port);
 
     int RemainingFailCycles;
     bool SupportsHoles;
-- 
2.43.0


From f48cb678301b4db192cf3eb8dc7930569a83782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:16 +0000
Subject: [PATCH 81/82] fix: energomera_iec: a cut answer is taken as a value

The closing bracket of a value wasn't checked, the rest of the answer was parsed from a wrong position.
---
 src/devices/energomera_iec_device.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/devices/energomera_iec_device.cpp b/src/devices/energomera_iec_device.cpp
index f1db199..c1719cf 100644
--- a/src/devices/energomera_iec_device.cpp
+++ b/src/devices/energomera_iec_device.cpp
@@ -165,13 +165,13 @@ namespace
 
     void ProcessResponse(TEnergomeraRegisterRange& range, char* presp)
     {
-        int nread;
         for (const auto& kv: range.RegsByParam) {
             auto& regs = kv.second;
             auto param_id = kv.first;
 
             // consume param
             uint16_t resp_param_id;
+            int nread = 0;
             int ret = sscanf(presp, "%04hX%n", &resp_param_id, &nread);
             if (ret < 1) {
                 throw TSerialDeviceTransientErrorException("param not found in the response");
@@ -184,15 +184,16 @@ namespace
             // consume reg values
             for (const auto& reg: regs) {
                 double resp_val;
+                nread = 0; // isn't changed if there is no closing bracket
                 ret = sscanf(presp, "(%lf)%n", &resp_val, &nread);
-                if (ret >= 1) {
+                if (ret >= 1 && nread > 0) {
                     presp += nread;
                     reg->SetValue(TRegisterValue{CopyDoubleToUint64(resp_val)});
                 } else {
                     // consume error message instead
                     int err_num;
                     ret = sscanf(presp, "(E%d)%n", &err_num, &nread);
-                    if (ret >= 1) {
+                    if (ret >= 1 && nread > 0) {
                         reg->SetError(TRegister::TError::ReadError);
                         presp += nread;
 
-- 
2.43.0


From 38f5d1982efd16919d8e0511fd15d0b90e346793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:44 +0000
Subject: [PATCH 82/82] fix: don't treat a device as connected because of a
 port scan

Scanning and probing read the serial number of polled devices. If such a device
has not been connected yet (or has just been switched on), a successful read made
it connected, so its setup registers were not written and events not enabled
before polling. Prepare the device without setup before the read, like other RPC
requests do.
---
 src/rpc/rpc_port_scan_serial_client_task.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rpc/rpc_port_scan_serial_client_task.cpp b/src/rpc/rpc_port_scan_serial_client_task.cpp
index e3e94ff..6e2e390 100644
--- a/src/rpc/rpc_port_scan_serial_client_task.cpp
+++ b/src/rpc/rpc_port_scan_serial_client_task.cpp
@@ -121,9 +121,17 @@ namespace
                     if (snRegister->GetErrorState().test(TRegister::ReadError) ||
                         snRegister->GetValue().GetType() == TRegisterValue::ValueType::Undefined)
                     {
-                        auto registerRange = polledDevice->CreateRegisterRange();
-                        registerRange->Add(reader.GetPort(), snRegister, std::chrono::milliseconds::max());
-                        polledDevice->ReadRegisterRange(reader.GetPort(), registerRange);
+                        try {
+                            // A successful read must not make the device connected, polling would go on without
+                            // writing of setup registers and enabling of events
+                            polledDevice->Prepare(reader.GetPort(), TDevicePrepareMode::WITHOUT_SETUP);
+                            auto registerRange = polledDevice->CreateRegisterRange();
+                            registerRange->Add(reader.GetPort(), snRegister, std::chrono::milliseconds::max());
+                            polledDevice->ReadRegisterRange(reader.GetPort(), registerRange);
+                        } catch (const TSerialDeviceException& e) {
+                            LOG(Warn) << "failed to read serial number of " << polledDevice->ToString() << ": "
+                                      << e.what();
+                        }
                     }
                     if (snRegister->GetValue().GetType() == TRegisterValue::ValueType::Integer &&
                         snFromRegister == snRegister->GetValue().Get<uint64_t>())
-- 
2.43.0

