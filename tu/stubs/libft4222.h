#ifndef VERIF_STUB_LIBFT4222_H
#define VERIF_STUB_LIBFT4222_H
#include "ftd2xx.h"
enum FT4222_STATUS { FT4222_OK, FT4222_DEVICE_NOT_FOUND = 2, FT4222_IO_ERROR = 4 };
enum FT4222_ClockRate { SYS_CLK_60, SYS_CLK_24, SYS_CLK_48, SYS_CLK_80 };
enum FT4222_SPIMode { SPI_IO_NONE, SPI_IO_SINGLE, SPI_IO_DUAL = 2, SPI_IO_QUAD = 4 };
enum FT4222_SPIClock { CLK_NONE, CLK_DIV_2, CLK_DIV_4, CLK_DIV_8, CLK_DIV_16, CLK_DIV_32, CLK_DIV_64, CLK_DIV_128, CLK_DIV_256, CLK_DIV_512 };
enum FT4222_SPICPOL { CLK_IDLE_LOW, CLK_IDLE_HIGH }; enum FT4222_SPICPHA { CLK_LEADING, CLK_TRAILING };
enum SPI_DrivingStrength { DS_4MA, DS_8MA, DS_12MA, DS_16MA }; enum SPI_ChipSelect { CS_ACTIVE_LOW, CS_ACTIVE_HIGH };
enum GPIO_Port { GPIO_PORT0, GPIO_PORT1, GPIO_PORT2, GPIO_PORT3 }; enum GPIO_Dir { GPIO_OUTPUT, GPIO_INPUT };
extern "C" {
FT4222_STATUS FT4222_UnInitialize(FT_HANDLE); FT4222_STATUS FT4222_SetClock(FT_HANDLE, FT4222_ClockRate);
FT4222_STATUS FT4222_SetWakeUpInterrupt(FT_HANDLE, BOOL); FT4222_STATUS FT4222_SetSuspendOut(FT_HANDLE, BOOL);
FT4222_STATUS FT4222_SPIMaster_Init(FT_HANDLE, FT4222_SPIMode, FT4222_SPIClock, FT4222_SPICPOL, FT4222_SPICPHA, uint8_t);
FT4222_STATUS FT4222_SPIMaster_SetCS(FT_HANDLE, SPI_ChipSelect); FT4222_STATUS FT4222_SPI_SetDrivingStrength(FT_HANDLE, SPI_DrivingStrength, SPI_DrivingStrength, SPI_DrivingStrength);
FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8_t*, uint8_t*, uint8_t, uint16_t, uint16_t, uint32_t*);
FT4222_STATUS FT4222_GPIO_Init(FT_HANDLE, GPIO_Dir*); FT4222_STATUS FT4222_GPIO_Read(FT_HANDLE, GPIO_Port, BOOL*); FT4222_STATUS FT4222_GPIO_Write(FT_HANDLE, GPIO_Port, BOOL);
}
#endif
