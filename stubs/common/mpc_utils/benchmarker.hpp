#pragma once
namespace mpc_utils { class Benchmarker {}; }
