#pragma once
#include "../juce_sim.h"
