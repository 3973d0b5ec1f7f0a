/* Declarations of the vendor interface used by /repo/src/hw, for analysis only (the vendor headers are not in the sandbox). */
#ifndef VERIF_STUB_FTD2XX_H
#define VERIF_STUB_FTD2XX_H
#include <cstdint>
typedef void* FT_HANDLE; typedef unsigned long FT_STATUS; typedef unsigned int DWORD; typedef DWORD ULONG; typedef unsigned short USHORT; typedef unsigned char UCHAR; typedef void* PVOID; typedef DWORD* LPDWORD;
typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32; typedef int32_t int32; typedef int16_t int16;
typedef int BOOL;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
enum { FT_OK = 0, FT_DEVICE_4222H_0 = 10, FT_DEVICE_4222H_1_2 = 11, FT_DEVICE_4222H_3 = 12, FT_OPEN_BY_LOCATION = 4, FT_OPEN_BY_SERIAL_NUMBER = 1, FT_OPEN_BY_DESCRIPTION = 2 };
typedef struct { ULONG Flags, Type, ID; DWORD LocId; char SerialNumber[16]; char Description[64]; FT_HANDLE ftHandle; } FT_DEVICE_LIST_INFO_NODE;
extern "C" {
FT_STATUS FT_CreateDeviceInfoList(LPDWORD); FT_STATUS FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE*, LPDWORD);
FT_STATUS FT_OpenEx(PVOID, DWORD, FT_HANDLE*); FT_STATUS FT_Close(FT_HANDLE); FT_STATUS FT_SetUSBParameters(FT_HANDLE, ULONG, ULONG);
}
#endif
