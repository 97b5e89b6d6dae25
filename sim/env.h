#pragma once
// What a user has set for a process: language, way of writing numbers, time zone.
namespace sim {
void varySettings(bool nowToo = false);   // from now on each simulated process may have settings of its own (nowToo: this one as well)
void drawSettings();
}
