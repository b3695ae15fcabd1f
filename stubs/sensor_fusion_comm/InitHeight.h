#ifndef STUB_InitHeight_H
#define STUB_InitHeight_H
#include <ros/ros.h>
namespace sensor_fusion_comm {
struct InitHeightRequest { float height=0; };
struct InitHeightResponse { std::string result; };
struct InitHeight { typedef InitHeightRequest Request; typedef InitHeightResponse Response; Request request; Response response; };
}
#endif
