// Stand-in: the editor is not simulated together with the processor.
#pragma once
#include "PluginProcessor.hpp"
namespace neo {
struct PluginEditor final : juce::AudioProcessorEditor
{
    explicit PluginEditor(PluginProcessor& p) : juce::AudioProcessorEditor{&p} {}
};
}  // namespace neo
