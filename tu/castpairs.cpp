// Every pair of integer types through checked_cast (for C05).  Nothing here is ever run.
#include <cstdint>
#include "checked_cast.h"
template int8_t checked_cast<int8_t, int8_t>(int8_t);
template int8_t checked_cast<int8_t, uint8_t>(uint8_t);
template int8_t checked_cast<int8_t, int16_t>(int16_t);
template int8_t checked_cast<int8_t, uint16_t>(uint16_t);
template int8_t checked_cast<int8_t, int32_t>(int32_t);
template int8_t checked_cast<int8_t, uint32_t>(uint32_t);
template int8_t checked_cast<int8_t, int64_t>(int64_t);
template int8_t checked_cast<int8_t, uint64_t>(uint64_t);
template uint8_t checked_cast<uint8_t, int8_t>(int8_t);
template uint8_t checked_cast<uint8_t, uint8_t>(uint8_t);
template uint8_t checked_cast<uint8_t, int16_t>(int16_t);
template uint8_t checked_cast<uint8_t, uint16_t>(uint16_t);
template uint8_t checked_cast<uint8_t, int32_t>(int32_t);
template uint8_t checked_cast<uint8_t, uint32_t>(uint32_t);
template uint8_t checked_cast<uint8_t, int64_t>(int64_t);
template uint8_t checked_cast<uint8_t, uint64_t>(uint64_t);
template int16_t checked_cast<int16_t, int8_t>(int8_t);
template int16_t checked_cast<int16_t, uint8_t>(uint8_t);
template int16_t checked_cast<int16_t, int16_t>(int16_t);
template int16_t checked_cast<int16_t, uint16_t>(uint16_t);
template int16_t checked_cast<int16_t, int32_t>(int32_t);
template int16_t checked_cast<int16_t, uint32_t>(uint32_t);
template int16_t checked_cast<int16_t, int64_t>(int64_t);
template int16_t checked_cast<int16_t, uint64_t>(uint64_t);
template uint16_t checked_cast<uint16_t, int8_t>(int8_t);
template uint16_t checked_cast<uint16_t, uint8_t>(uint8_t);
template uint16_t checked_cast<uint16_t, int16_t>(int16_t);
template uint16_t checked_cast<uint16_t, uint16_t>(uint16_t);
template uint16_t checked_cast<uint16_t, int32_t>(int32_t);
template uint16_t checked_cast<uint16_t, uint32_t>(uint32_t);
template uint16_t checked_cast<uint16_t, int64_t>(int64_t);
template uint16_t checked_cast<uint16_t, uint64_t>(uint64_t);
template int32_t checked_cast<int32_t, int8_t>(int8_t);
template int32_t checked_cast<int32_t, uint8_t>(uint8_t);
template int32_t checked_cast<int32_t, int16_t>(int16_t);
template int32_t checked_cast<int32_t, uint16_t>(uint16_t);
template int32_t checked_cast<int32_t, int32_t>(int32_t);
template int32_t checked_cast<int32_t, uint32_t>(uint32_t);
template int32_t checked_cast<int32_t, int64_t>(int64_t);
template int32_t checked_cast<int32_t, uint64_t>(uint64_t);
template uint32_t checked_cast<uint32_t, int8_t>(int8_t);
template uint32_t checked_cast<uint32_t, uint8_t>(uint8_t);
template uint32_t checked_cast<uint32_t, int16_t>(int16_t);
template uint32_t checked_cast<uint32_t, uint16_t>(uint16_t);
template uint32_t checked_cast<uint32_t, int32_t>(int32_t);
template uint32_t checked_cast<uint32_t, uint32_t>(uint32_t);
template uint32_t checked_cast<uint32_t, int64_t>(int64_t);
template uint32_t checked_cast<uint32_t, uint64_t>(uint64_t);
template int64_t checked_cast<int64_t, int8_t>(int8_t);
template int64_t checked_cast<int64_t, uint8_t>(uint8_t);
template int64_t checked_cast<int64_t, int16_t>(int16_t);
template int64_t checked_cast<int64_t, uint16_t>(uint16_t);
template int64_t checked_cast<int64_t, int32_t>(int32_t);
template int64_t checked_cast<int64_t, uint32_t>(uint32_t);
template int64_t checked_cast<int64_t, int64_t>(int64_t);
template int64_t checked_cast<int64_t, uint64_t>(uint64_t);
template uint64_t checked_cast<uint64_t, int8_t>(int8_t);
template uint64_t checked_cast<uint64_t, uint8_t>(uint8_t);
template uint64_t checked_cast<uint64_t, int16_t>(int16_t);
template uint64_t checked_cast<uint64_t, uint16_t>(uint16_t);
template uint64_t checked_cast<uint64_t, int32_t>(int32_t);
template uint64_t checked_cast<uint64_t, uint32_t>(uint32_t);
template uint64_t checked_cast<uint64_t, int64_t>(int64_t);
template uint64_t checked_cast<uint64_t, uint64_t>(uint64_t);
