// Stand-in for the protocol buffers generated from RtBot.proto.
#pragma once
#include <string>
namespace rtbot { namespace api { namespace proto { struct Input { std::string DebugString() const { return ""; } }; struct Output { std::string DebugString() const { return ""; } }; } } }
