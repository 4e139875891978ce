#pragma once
#include <string>
#include <cstdint>
namespace yacl { class ElapsedTimer { public: void Restart() {} void Pause() {} void Resume() {} double CountMs() const { return 1; } double CountSec() const { return 1; } }; }
