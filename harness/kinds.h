// round trip of one object of every concrete kind
#pragma once
#include "vob.h"
// long: strings of about 300 characters and lists of up to 255 elements
static bool g_long = false;
template <typename T, int FM> void kind(bool save) {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, save};
	c.k = g_long ? 2 : choose(0, 2, "k");
	if (g_long) { c.more = 253; c.pad = 290; }
	auto o = std::make_shared<T>();
	o->physics_enabled = false;
	o->vob_name = "N";
	Fill f {c};
	own(f, *o, *o);
	if (save) { f(o->sleep_mode); f(o->next_on_timer); }
	c.n = 0;
	auto p = round_trip(c, o);
	CHECK(p->vob_name == "N");
	Same s {c};
	own(s, *o, *p);
	if (save) { s(o->sleep_mode, p->sleep_mode); s(o->next_on_timer, p->next_on_timer); }
}
#define GROUP1(X) X(VAnimate) X(VItem) X(VLensFlare) X(VParticleEffectController) X(VMessageFilter) X(VCodeMaster) X(VMoverController) X(VTouchDamage) X(VEarthquake) X(VScreenEffect)
#define GROUP2(X) X(VMovableObject) X(VInteractiveObject) X(VBed) X(VLadder) X(VSwitch) X(VWheel) X(VFire) X(VDoor) X(VContainer)
#define GROUP3(X) X(VTrigger) X(VCutsceneTrigger) X(VMover) X(VTriggerList) X(VTriggerScript) X(VTriggerChangeLevel) X(VTriggerWorldStart) X(VTriggerUntouch)
#define GROUP4(X) X(VCameraTrajectoryFrame) X(VCutsceneCamera) X(VSound) X(VSoundDaytime) X(VZoneMusic) X(VZoneMusicDefault) X(VZoneFarPlane) X(VZoneFarPlaneDefault) X(VZoneFog) X(VZoneFogDefault)
#define GROUP5(X) X(VSpot) X(VStair) X(VStartPoint) X(VLevel) X(VLight)
#define COUNT_(T) +1
#define CASE_(T) case __COUNTER__ - BASE: kind<T, FM>(save); break;
template <int FM> void group1(bool save) { constexpr int BASE = __COUNTER__ + 1; switch (choose(0, (0 GROUP1(COUNT_)) - 1, "kind")) { GROUP1(CASE_) } }
template <int FM> void group2(bool save) { constexpr int BASE = __COUNTER__ + 1; switch (choose(0, (0 GROUP2(COUNT_)) - 1, "kind")) { GROUP2(CASE_) } }
template <int FM> void group3(bool save) { constexpr int BASE = __COUNTER__ + 1; switch (choose(0, (0 GROUP3(COUNT_)) - 1, "kind")) { GROUP3(CASE_) } }
template <int FM> void group4(bool save) { constexpr int BASE = __COUNTER__ + 1; switch (choose(0, (0 GROUP4(COUNT_)) - 1, "kind")) { GROUP4(CASE_) } }
template <int FM> void group5(bool save) { constexpr int BASE = __COUNTER__ + 1; switch (choose(0, (0 GROUP5(COUNT_)) - 1, "kind")) { GROUP5(CASE_) } }
