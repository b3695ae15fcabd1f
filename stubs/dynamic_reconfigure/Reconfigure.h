#ifndef STUB_DYNREC_RECONF_H
#define STUB_DYNREC_RECONF_H
#include <ros/ros.h>
#endif
