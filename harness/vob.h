// world objects with arbitrary attribute values: one field list per class serves for filling and for comparing
#pragma once
#include "arc.h"
#include "classes.h"
#include <zenkit/vobs/Camera.hh>
#include <zenkit/vobs/Light.hh>
#include <zenkit/vobs/Misc.hh>
#include <zenkit/vobs/MovableObject.hh>
#include <zenkit/vobs/Sound.hh>
#include <zenkit/vobs/Trigger.hh>
#include <zenkit/vobs/VirtualObject.hh>
#include <zenkit/vobs/Zone.hh>
#include <zenkit/CutsceneLibrary.hh>

struct Ctx {
	ArchiveFormat fmt;
	GameVersion ver;
	bool save;
	unsigned k = 0;    // shifts which strings are empty, one or two characters long
	unsigned n = 0;    // running number of the attribute
	unsigned more = 0; // makes lists that are not empty longer by this number of elements
	unsigned pad = 0;  // makes strings longer by this number of characters
	bool text() const { return fmt == ArchiveFormat::ASCII; }
	bool g2() const { return ver == GameVersion::GOTHIC_2; }
};

struct Fill {
	Ctx& c;
	void operator()(bool& v) { v = c.text() ? (++c.n & 1) : sym<bool>("bool"); }
	void operator()(int32_t& v) { v = c.text() ? (int) (++c.n * 7 - 40) : sym<int32_t>("int"); }
	void operator()(uint32_t& v) { v = c.text() ? ++c.n : sym<uint32_t>("uint"); }
	void operator()(uint8_t& v) { v = c.text() ? (uint8_t) ++c.n : sym<uint8_t>("byte"); }
	void operator()(float& v) { v = c.text() ? (float) (++c.n) * 0.25f - 3 : sym<float>("float"); }
	void operator()(std::string& v) {
		v = sym_line((c.k + ++c.n) % 3, "string");
		if (c.pad) v = "<" + v + std::string(c.pad + c.n % 7, (char) ('a' + c.n % 26)) + v + ">";
	}
	void operator()(Color& v) { v = c.text() ? Color {1, 2, 3, (uint8_t) ++c.n} : Color {sym<uint8_t>("r"), sym<uint8_t>("g"), sym<uint8_t>("b"), sym<uint8_t>("a")}; }
	void operator()(Vec2& v) { (*this)(v.x); (*this)(v.y); }
	void operator()(Vec3& v) { (*this)(v.x); (*this)(v.y); (*this)(v.z); }
	void operator()(Mat3& m) { for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) (*this)(m[a][b]); }
	void operator()(Mat4& m) { for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) (*this)(m[a][b]); }
	void operator()(AxisAlignedBoundingBox& b) { (*this)(b.min); (*this)(b.max); }
	void en(uint32_t& v) { v = c.text() ? ++c.n % 5 : sym<uint32_t>("enum"); if (c.fmt == ArchiveFormat::BINARY) ASSUME(v < 256); }
	template <typename T> requires std::is_enum_v<T> void operator()(T& v) {
		uint32_t x; en(x); if (sizeof(T) == 1) ASSUME(x < 256); v = (T) x;
	}
	template <typename T> void operator()(T& a, T&) { (*this)(a); }
	void en(uint32_t& a, uint32_t&) { en(a); }
	template <typename T> bool vec(std::vector<T>& a, std::vector<T>&, size_t n) { a.resize(n ? n + c.more : 0); return true; }
	template <typename T> bool ptrs(std::vector<std::shared_ptr<T>>& a, std::vector<std::shared_ptr<T>>&, size_t n) {
		a.resize(n ? n + c.more : 0);
		for (auto& p : a) p = std::make_shared<T>();
		return true;
	}
};
struct Same {
	Ctx& c;
	template <typename T> void operator()(T const& a, T const& b) {
		if constexpr (std::is_same_v<T, bool>) CHECK(a == b);
		else CHECK(same(a, b));
	}
	void en(uint32_t& a, uint32_t& b) { CHECK(same(a, b)); }
	template <typename T> bool vec(std::vector<T>& a, std::vector<T>& b, size_t) { CHECK(a.size() == b.size()); return a.size() == b.size(); }
	template <typename T> bool ptrs(std::vector<std::shared_ptr<T>>& a, std::vector<std::shared_ptr<T>>& b, size_t) {
		CHECK(a.size() == b.size());
		if (a.size() != b.size()) return false;
		for (auto& p : b) { CHECK(p != nullptr); if (!p) return false; }
		return true;
	}
};
#define F(x) v(a.x, b.x)

// --- attributes of the common part, as far as the chosen layout stores them
template <typename V> void common(V& v, VirtualObject& a, VirtualObject& b) {
	F(bbox); F(position); F(rotation); F(show_visual); F(cd_static); F(cd_dynamic); F(vob_static);
	F(preset_name); F(vob_name);
	if (v.c.g2()) { F(ambient); F(anim_strength); F(far_clip_scale); }
}
// --- attributes of every concrete kind
template <typename V, typename T> void own(V&, T&, T&) {}
#define FIELDS(T) template <typename V> void own(V& v, T& a, T& b)
FIELDS(VAnimate) { F(start_on); if (v.c.save) F(s_is_running); }
FIELDS(VItem) { F(instance); if (v.c.save) { F(s_amount); F(s_flags); } }
FIELDS(VLensFlare) { F(fx); }
FIELDS(VParticleEffectController) { F(pfx_name); F(kill_when_done); F(initially_running); }
FIELDS(VMessageFilter) { F(target); F(on_trigger); F(on_untrigger); }
FIELDS(VCodeMaster) {
	F(target); F(ordered); F(first_false_is_failure); F(failure_target); F(untriggered_cancels);
	if (v.vec(a.slaves, b.slaves, v.c.k)) for (size_t i = 0; i < a.slaves.size(); ++i) F(slaves[i]);
	if (v.c.save && v.c.g2()) F(s_num_triggered_slaves);
}
FIELDS(VMoverController) { F(target); F(message); F(key); }
FIELDS(VTouchDamage) {
	F(damage); F(barrier); F(blunt); F(edge); F(fire); F(fly); F(magic); F(point); F(fall); F(repeat_delay_sec); F(volume_scale); F(collision);
}
FIELDS(VEarthquake) { F(radius); F(duration); F(amplitude); }
FIELDS(VMovableObject) {
	F(name); F(hp); F(damage); F(movable); F(takable); F(focus_override); F(material); F(visual_destroyed); F(owner); F(owner_guild); F(destroyed);
}
FIELDS(VInteractiveObject) {
	own(v, (VMovableObject&) a, (VMovableObject&) b);
	F(state_count); F(target); F(item); F(condition_function); F(on_state_change_function); F(rewind);
}
FIELDS(VBed) { own(v, (VInteractiveObject&) a, (VInteractiveObject&) b); }
FIELDS(VLadder) { own(v, (VInteractiveObject&) a, (VInteractiveObject&) b); }
FIELDS(VSwitch) { own(v, (VInteractiveObject&) a, (VInteractiveObject&) b); }
FIELDS(VWheel) { own(v, (VInteractiveObject&) a, (VInteractiveObject&) b); }
FIELDS(VFire) { own(v, (VInteractiveObject&) a, (VInteractiveObject&) b); F(slot); F(vob_tree); }
FIELDS(VDoor) { own(v, (VInteractiveObject&) a, (VInteractiveObject&) b); F(locked); F(key); F(pick_string); }
FIELDS(VContainer) {
	own(v, (VInteractiveObject&) a, (VInteractiveObject&) b); F(locked); F(key); F(pick_string); F(contents);
	if (v.c.save && v.ptrs(a.s_items, b.s_items, v.c.k)) for (size_t i = 0; i < a.s_items.size(); ++i) own(v, *a.s_items[i], *b.s_items[i]);
}
FIELDS(VTrigger) {
	F(target); F(start_enabled); F(send_untrigger); F(react_to_on_trigger); F(react_to_on_touch); F(react_to_on_damage);
	F(respond_to_object); F(respond_to_pc); F(respond_to_npc);
	F(vob_target); F(max_activation_count); F(retrigger_delay_sec); F(damage_threshold); F(fire_delay_sec);
	if (v.c.save) { F(s_next_time_triggerable); F(s_count_can_be_activated); if (v.c.g2()) F(s_is_enabled); }
}
FIELDS(VCutsceneTrigger) { own(v, (VTrigger&) a, (VTrigger&) b); }
FIELDS(VMover) {
	own(v, (VTrigger&) a, (VTrigger&) b);
	F(behavior); F(touch_blocker_damage); F(stay_open_time_sec); F(locked); F(auto_link);
	if (v.c.g2()) F(auto_rotate);
	if (v.vec(a.keyframes, b.keyframes, v.c.k))
		for (size_t i = 0; i < a.keyframes.size(); ++i) {
			F(keyframes[i].position); F(keyframes[i].rotation.x); F(keyframes[i].rotation.y); F(keyframes[i].rotation.z); F(keyframes[i].rotation.w);
		}
	if (!a.keyframes.empty()) { F(speed); F(lerp_mode); F(speed_mode); }
	if (v.c.save) {
		F(s_act_key_pos_delta); F(s_act_keyframe_f); F(s_act_keyframe); F(s_next_keyframe); F(s_move_speed_unit); F(s_advance_dir);
		v.en(a.s_mover_state, b.s_mover_state); F(s_trigger_event_count); F(s_stay_open_time_dest);
	}
	F(sfx_open_start); F(sfx_open_end); F(sfx_transitioning); F(sfx_close_start); F(sfx_close_end); F(sfx_lock); F(sfx_unlock); F(sfx_use_locked);
}
FIELDS(VTriggerList) {
	own(v, (VTrigger&) a, (VTrigger&) b); F(mode);
	if (v.vec(a.targets, b.targets, v.c.k)) for (size_t i = 0; i < a.targets.size(); ++i) { F(targets[i].name); F(targets[i].delay); }
	if (v.c.save) { F(s_act_target); F(s_send_on_trigger); }
}
FIELDS(VTriggerScript) { own(v, (VTrigger&) a, (VTrigger&) b); F(function); }
FIELDS(VTriggerChangeLevel) { own(v, (VTrigger&) a, (VTrigger&) b); F(level_name); F(start_vob); }
FIELDS(VTriggerWorldStart) { F(target); F(fire_once); if (v.c.save && v.c.g2()) F(s_has_fired); }
FIELDS(VTriggerUntouch) { F(target); }
FIELDS(VCameraTrajectoryFrame) {
	F(time); F(roll_angle); F(fov_scale); F(motion_type); F(motion_type_fov); F(motion_type_roll); F(motion_type_time_scale);
	F(tension); F(cam_bias); F(continuity); F(time_scale); F(time_fixed); F(original_pose);
}
FIELDS(VCutsceneCamera) {
	F(trajectory_for); F(target_trajectory_for); F(loop_mode); F(lerp_mode); F(ignore_for_vob_rotation); F(ignore_for_vob_rotation_target);
	F(adapt); F(ease_first); F(ease_last); F(total_duration); F(auto_focus_vob); F(auto_player_movable); F(auto_untrigger_last); F(auto_untrigger_last_delay);
	if (v.ptrs(a.trajectory_frames, b.trajectory_frames, v.c.k)) for (size_t i = 0; i < a.trajectory_frames.size(); ++i) own(v, *a.trajectory_frames[i], *b.trajectory_frames[i]);
	if (v.ptrs(a.target_frames, b.target_frames, (v.c.k + 1) % 3)) for (size_t i = 0; i < a.target_frames.size(); ++i) own(v, *a.target_frames[i], *b.target_frames[i]);
	a.position_count = (int32_t) a.trajectory_frames.size();
	a.target_count = (int32_t) a.target_frames.size();
	CHECK(b.position_count == a.position_count);
	CHECK(b.target_count == a.target_count);
	if (v.c.save && v.c.g2()) { F(paused); F(started); F(goto_time_mode); F(cs_time); }
}
template <typename V> void light(V& v, LightPreset& a, LightPreset& b) {
	F(preset); F(light_type); F(range); F(color); F(cone_angle); F(quality); F(lensflare_fx);
	a.is_static = v.c.k == 2;
	CHECK(b.is_static == a.is_static);
	if (!a.is_static) {
		F(on); F(range_animation_fps); F(range_animation_smooth); F(color_animation_fps); F(color_animation_smooth);
		if (v.c.g2()) F(can_move);
	}
}
FIELDS(VLight) { light(v, (LightPreset&) a, (LightPreset&) b); }
FIELDS(VSound) {
	F(volume); F(mode); F(random_delay); F(random_delay_var); F(initially_playing); F(ambient3d); F(obstruction); F(cone_angle); F(volume_type); F(radius); F(sound_name);
	if (v.c.save) { F(s_is_running); F(s_is_allowed_to_run); }
}
FIELDS(VSoundDaytime) { own(v, (VSound&) a, (VSound&) b); F(start_time); F(end_time); F(sound_name2); }
FIELDS(VZoneMusic) {
	F(enabled); F(priority); F(ellipsoid); F(reverb); F(volume); F(loop);
	if (v.c.save) { F(s_local_enabled); F(s_day_entrance_done); F(s_night_entrance_done); }
}
FIELDS(VZoneMusicDefault) { own(v, (VZoneMusic&) a, (VZoneMusic&) b); }
FIELDS(VZoneFarPlane) { F(vob_far_plane_z); F(inner_range_percentage); }
FIELDS(VZoneFarPlaneDefault) { own(v, (VZoneFarPlane&) a, (VZoneFarPlane&) b); }
FIELDS(VZoneFog) { F(range_center); F(inner_range_percentage); F(color); if (v.c.g2()) { F(fade_out_sky); F(override_color); } }
FIELDS(VZoneFogDefault) { own(v, (VZoneFog&) a, (VZoneFog&) b); }
FIELDS(AiHuman) {
	F(water_level); F(floor_y); F(water_y); F(ceil_y); F(feet_y); F(head_y); F(fall_dist_y); F(fall_start_y);
	F(walk_mode); F(weapon_mode); F(wmode_ast); F(wmode_select); F(change_weapon); F(action_mode);
}
FIELDS(RigidBody) { F(vel); F(mode); F(gravity_enabled); F(gravity_scale); F(slide_direction); }
FIELDS(VNpc::Talent) { F(talent); F(value); F(skill); }
FIELDS(VNpc) {
	F(npc_instance); F(model_scale); F(model_fatness);
	if (v.vec(a.overlays, b.overlays, v.c.k)) for (size_t i = 0; i < a.overlays.size(); ++i) F(overlays[i]);
	F(flags); F(guild); F(guild_true); F(level); F(xp); F(xp_next_level); F(lp);
	if (v.ptrs(a.talents, b.talents, v.c.k)) for (size_t i = 0; i < a.talents.size(); ++i) own(v, *a.talents[i], *b.talents[i]);
	F(fight_tactic); F(fight_mode); F(wounded); F(mad); F(mad_time); F(player);
	for (unsigned i = 0; i < VNpc::attribute_count; ++i) F(attributes[i]);
	if (v.c.g2()) for (unsigned i = 0; i < VNpc::hcs_count; ++i) F(hit_chance[i]);
	for (unsigned i = 0; i < VNpc::missions_count; ++i) F(missions[i]);
	F(start_ai_state);
	for (unsigned i = 0; i < (v.c.g2() ? 100u : 50u); ++i) F(aivar[i]);
	F(script_waypoint); F(attitude); F(attitude_temp); F(name_nr); F(move_lock);
	for (unsigned i = 0; i < VNpc::packed_count; ++i) F(packed[i]);
	F(current_state_valid); F(current_state_name); F(current_state_index); F(current_state_is_routine);
	F(next_state_valid); F(next_state_name); F(next_state_index); F(next_state_is_routine);
	F(last_ai_state); F(has_routine); F(routine_changed); F(routine_overlay); F(routine_overlay_count); F(walkmode_routine); F(weaponmode_routine);
	F(start_new_routine); F(ai_state_driven); F(ai_state_pos); F(current_routine); F(respawn); F(respawn_time);
	for (unsigned i = 0; i < VNpc::protection_count; ++i) F(protection[i]);
	if (v.c.g2()) { F(bs_interruptable_override); F(npc_type); F(spell_mana); }
}

// writes the object between two sentinels and reads it back
template <typename T> std::shared_ptr<T> round_trip(Ctx& c, std::shared_ptr<T> const& o) {
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = c.save ? WriteArchive::to_save(w.get(), c.fmt) : WriteArchive::to(w.get(), c.fmt);
	auto t = std::make_shared<VNpc::Talent>();
	t->talent = 1; t->value = 2; t->skill = 3;
	a->write_object(std::static_pointer_cast<Object>(o), c.ver);
	a->write_object(std::static_pointer_cast<Object>(t), c.ver);
	a->write_header();
	class_record(buf, o->get_object_type(), c.g2());
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	CHECK(r->is_save_game() == c.save);
	auto p = r->read_object(c.ver);
	CHECK(p != nullptr);
	CHECK(p->get_object_type() == o->get_object_type());
	auto t2 = r->read_object<VNpc::Talent>(c.ver);
	CHECK(t2 != nullptr && t2->talent == 1 && t2->value == 2 && t2->skill == 3);
	return std::static_pointer_cast<T>(p);
}
template <typename T> std::shared_ptr<T> make_zeroed() { return std::make_shared<T>(); }
