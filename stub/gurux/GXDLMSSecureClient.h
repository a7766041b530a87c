// Stand-in for the absent gurux library: just enough to compile dlms_device.h. DLMS itself is out of scope.
#pragma once
enum DLMS_SECURITY { DLMS_SECURITY_NONE };
enum DLMS_AUTHENTICATION { DLMS_AUTHENTICATION_NONE };
enum DLMS_INTERFACE_TYPE { DLMS_INTERFACE_TYPE_HDLC };
class CGXByteBuffer {};
class CGXReplyData {};
class CGXDLMSObject {};
class CGXDLMSObjectCollection {};
class CGXDLMSSecureClient {};
