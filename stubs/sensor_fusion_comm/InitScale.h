#ifndef STUB_InitScale_H
#define STUB_InitScale_H
#include <ros/ros.h>
namespace sensor_fusion_comm {
struct InitScaleRequest { float scale=0; };
struct InitScaleResponse { std::string result; };
struct InitScale { typedef InitScaleRequest Request; typedef InitScaleResponse Response; Request request; Response response; };
}
#endif
