// dr_wav stand-in over the simulated disk (scen/simdisk.hpp).  Same names, types and return values as dr_wav 0.13.
#pragma once
#include <cstddef>
#include <cstdint>

using drwav_uint16 = std::uint16_t;
using drwav_uint32 = std::uint32_t;
using drwav_uint64 = std::uint64_t;
using drwav_int32  = std::int32_t;
using drwav_bool32 = std::uint32_t;
using drwav_result = drwav_int32;
#define DRWAV_TRUE 1
#define DRWAV_FALSE 0
#define DRWAV_SUCCESS 0
#define DRWAV_ERROR -1
#define DR_WAVE_FORMAT_PCM 0x1
#define DR_WAVE_FORMAT_IEEE_FLOAT 0x3

enum drwav_container
{
    drwav_container_riff,
    drwav_container_rifx,
    drwav_container_w64,
    drwav_container_rf64,
    drwav_container_aiff,
};
struct drwav_allocation_callbacks
{
    void* pUserData;
    void* (*onMalloc)(std::size_t, void*);
    void* (*onRealloc)(void*, std::size_t, void*);
    void (*onFree)(void*, void*);
};
struct drwav_data_format
{
    drwav_container container;
    drwav_uint32 format;
    drwav_uint32 channels;
    drwav_uint32 sampleRate;
    drwav_uint32 bitsPerSample;
};
struct drwav
{
    void* pUserData;
    drwav_container container;
    drwav_uint32 sampleRate;
    drwav_uint16 channels;
    drwav_uint16 bitsPerSample;
    drwav_uint16 translatedFormatTag;
    drwav_uint64 totalPCMFrameCount;
    drwav_uint64 readCursorInPCMFrames;
};
drwav_bool32 drwav_init_file(drwav*, char const* filename, drwav_allocation_callbacks const*);
drwav_uint64 drwav_read_pcm_frames_f32(drwav*, drwav_uint64 frames, float* out);
drwav_bool32 drwav_init_file_write(drwav*, char const* filename, drwav_data_format const*, drwav_allocation_callbacks const*);
drwav_uint64 drwav_write_pcm_frames(drwav*, drwav_uint64 frames, void const* data);
drwav_result drwav_uninit(drwav*);
