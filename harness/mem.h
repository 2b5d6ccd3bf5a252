#pragma once
#include <functional>
#include <memory>
// compare the executions of a history under different memory contents, and with another instance acting in between
typedef std::function<void(std::function<void()> history,std::function<void()> other)> Same;
