#pragma once
#include <mutex>
using AIMutex = std::mutex;
