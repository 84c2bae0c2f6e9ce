// Members of the standard script classes and the host fields which hold them.

#define TAB_C_GILVALUES(M) \
	M("C_GILVALUES.WATER_DEPTH_KNEE", water_depth_knee, TINT, 66, 0) \
	M("C_GILVALUES.WATER_DEPTH_CHEST", water_depth_chest, TINT, 66, 0) \
	M("C_GILVALUES.JUMPUP_HEIGHT", jumpup_height, TINT, 66, 0) \
	M("C_GILVALUES.SWIM_TIME", swim_time, TINT, 66, 0) \
	M("C_GILVALUES.DIVE_TIME", dive_time, TINT, 66, 0) \
	M("C_GILVALUES.STEP_HEIGHT", step_height, TINT, 66, 0) \
	M("C_GILVALUES.JUMPLOW_HEIGHT", jumplow_height, TINT, 66, 0) \
	M("C_GILVALUES.JUMPMID_HEIGHT", jumpmid_height, TINT, 66, 0) \
	M("C_GILVALUES.SLIDE_ANGLE", slide_angle, TINT, 66, 0) \
	M("C_GILVALUES.SLIDE_ANGLE2", slide_angle2, TINT, 66, 0) \
	M("C_GILVALUES.DISABLE_AUTOROLL", disable_autoroll, TINT, 66, 0) \
	M("C_GILVALUES.SURFACE_ALIGN", surface_align, TINT, 66, 0) \
	M("C_GILVALUES.CLIMB_HEADING_ANGLE", climb_heading_angle, TINT, 66, 0) \
	M("C_GILVALUES.CLIMB_HORIZ_ANGLE", climb_horiz_angle, TINT, 66, 0) \
	M("C_GILVALUES.CLIMB_GROUND_ANGLE", climb_ground_angle, TINT, 66, 0) \
	M("C_GILVALUES.FIGHT_RANGE_BASE", fight_range_base, TINT, 66, 0) \
	M("C_GILVALUES.FIGHT_RANGE_FIST", fight_range_fist, TINT, 66, 0) \
	M("C_GILVALUES.FIGHT_RANGE_1HS", fight_range_1hs, TINT, 66, 0) \
	M("C_GILVALUES.FIGHT_RANGE_1HA", fight_range_1ha, TINT, 66, 0) \
	M("C_GILVALUES.FIGHT_RANGE_2HS", fight_range_2hs, TINT, 66, 0) \
	M("C_GILVALUES.FIGHT_RANGE_2HA", fight_range_2ha, TINT, 66, 0) \
	M("C_GILVALUES.FALLDOWN_HEIGHT", falldown_height, TINT, 66, 0) \
	M("C_GILVALUES.FALLDOWN_DAMAGE", falldown_damage, TINT, 66, 0) \
	M("C_GILVALUES.BLOOD_DISABLED", blood_disabled, TINT, 66, 0) \
	M("C_GILVALUES.BLOOD_MAX_DISTANCE", blood_max_distance, TINT, 66, 0) \
	M("C_GILVALUES.BLOOD_AMOUNT", blood_amount, TINT, 66, 0) \
	M("C_GILVALUES.BLOOD_FLOW", blood_flow, TINT, 66, 0) \
	M("C_GILVALUES.BLOOD_EMITTER", blood_emitter, TSTRING, 66, 0) \
	M("C_GILVALUES.BLOOD_TEXTURE", blood_texture, TSTRING, 66, 0) \
	M("C_GILVALUES.TURN_SPEED", turn_speed, TINT, 66, 0) \
	M("C_GILVALUES.FIGHT_RANGE_G", fight_range_g, TINT, 66, 1) \

#define TAB_C_NPC(M) \
	M("C_NPC.ID", id, TINT, 1, 0) \
	M("C_NPC.NAME", name, TSTRING, 5, 0) \
	M("C_NPC.SLOT", slot, TSTRING, 1, 0) \
	M("C_NPC.NPCTYPE", type, TINT, 1, 0) \
	M("C_NPC.FLAGS", flags, TINT, 1, 0) \
	M("C_NPC.ATTRIBUTE", attribute, TINT, 8, 0) \
	M("C_NPC.PROTECTION", protection, TINT, 8, 0) \
	M("C_NPC.DAMAGE", damage, TINT, 8, 0) \
	M("C_NPC.DAMAGETYPE", damage_type, TINT, 1, 0) \
	M("C_NPC.GUILD", guild, TINT, 1, 0) \
	M("C_NPC.LEVEL", level, TINT, 1, 0) \
	M("C_NPC.MISSION", mission, TFUNC, 5, 0) \
	M("C_NPC.FIGHT_TACTIC", fight_tactic, TINT, 1, 0) \
	M("C_NPC.WEAPON", weapon, TINT, 1, 0) \
	M("C_NPC.VOICE", voice, TINT, 1, 0) \
	M("C_NPC.VOICEPITCH", voice_pitch, TINT, 1, 0) \
	M("C_NPC.BODYMASS", body_mass, TINT, 1, 0) \
	M("C_NPC.DAILY_ROUTINE", daily_routine, TFUNC, 1, 0) \
	M("C_NPC.START_AISTATE", start_aistate, TFUNC, 1, 0) \
	M("C_NPC.SPAWNPOINT", spawnpoint, TSTRING, 1, 0) \
	M("C_NPC.SPAWNDELAY", spawn_delay, TINT, 1, 0) \
	M("C_NPC.SENSES", senses, TINT, 1, 0) \
	M("C_NPC.SENSES_RANGE", senses_range, TINT, 1, 0) \
	M("C_NPC.AIVAR", aivar, TINT, 100, 0) \
	M("C_NPC.WP", wp, TSTRING, 1, 0) \
	M("C_NPC.EXP", exp, TINT, 1, 0) \
	M("C_NPC.EXP_NEXT", exp_next, TINT, 1, 0) \
	M("C_NPC.LP", lp, TINT, 1, 0) \
	M("C_NPC.HITCHANCE", hitchance, TINT, 5, 1) \
	M("C_NPC.BODYSTATEINTERRUPTABLEOVERRIDE", bodystate_interruptable_override, TINT, 1, 1) \
	M("C_NPC.NOFOCUS", no_focus, TINT, 1, 1) \
	M("C_NPC.EFFECT", effect, TSTRING, 1, 2) \

#define TAB_C_MISSION(M) \
	M("C_MISSION.NAME", name, TSTRING, 1, 0) \
	M("C_MISSION.DESCRIPTION", description, TSTRING, 1, 0) \
	M("C_MISSION.DURATION", duration, TINT, 1, 0) \
	M("C_MISSION.IMPORTANT", important, TINT, 1, 0) \
	M("C_MISSION.OFFERCONDITIONS", offer_conditions, TFUNC, 1, 0) \
	M("C_MISSION.OFFER", offer, TFUNC, 1, 0) \
	M("C_MISSION.SUCCESSCONDITIONS", success_conditions, TFUNC, 1, 0) \
	M("C_MISSION.SUCCESS", success, TFUNC, 1, 0) \
	M("C_MISSION.FAILURECONDITIONS", failure_conditions, TFUNC, 1, 0) \
	M("C_MISSION.FAILURE", failure, TFUNC, 1, 0) \
	M("C_MISSION.OBSOLETECONDITIONS", obsolete_conditions, TFUNC, 1, 0) \
	M("C_MISSION.OBSOLETE", obsolete, TFUNC, 1, 0) \
	M("C_MISSION.RUNNING", running, TFUNC, 1, 0) \

#define TAB_C_ITEM(M) \
	M("C_ITEM.ID", id, TINT, 1, 0) \
	M("C_ITEM.NAME", name, TSTRING, 1, 0) \
	M("C_ITEM.NAMEID", name_id, TSTRING, 1, 0) \
	M("C_ITEM.HP", hp, TINT, 1, 0) \
	M("C_ITEM.HP_MAX", hp_max, TINT, 1, 0) \
	M("C_ITEM.MAINFLAG", main_flag, TINT, 1, 0) \
	M("C_ITEM.FLAGS", flags, TINT, 1, 0) \
	M("C_ITEM.WEIGHT", weight, TINT, 1, 0) \
	M("C_ITEM.VALUE", value, TINT, 1, 0) \
	M("C_ITEM.DAMAGETYPE", damage_type, TINT, 1, 0) \
	M("C_ITEM.DAMAGETOTAL", damage_total, TINT, 1, 0) \
	M("C_ITEM.DAMAGE", damage, TINT, 8, 0) \
	M("C_ITEM.WEAR", wear, TINT, 1, 0) \
	M("C_ITEM.PROTECTION", protection, TINT, 8, 0) \
	M("C_ITEM.NUTRITION", nutrition, TINT, 1, 0) \
	M("C_ITEM.COND_ATR", cond_atr, TINT, 3, 0) \
	M("C_ITEM.COND_VALUE", cond_value, TINT, 3, 0) \
	M("C_ITEM.CHANGE_ATR", change_atr, TINT, 3, 0) \
	M("C_ITEM.CHANGE_VALUE", change_value, TINT, 3, 0) \
	M("C_ITEM.MAGIC", magic, TFUNC, 1, 0) \
	M("C_ITEM.ON_EQUIP", on_equip, TFUNC, 1, 0) \
	M("C_ITEM.ON_UNEQUIP", on_unequip, TFUNC, 1, 0) \
	M("C_ITEM.ON_STATE", on_state, TFUNC, 4, 0) \
	M("C_ITEM.OWNER", owner, TFUNC, 1, 0) \
	M("C_ITEM.OWNERGUILD", owner_guild, TINT, 1, 0) \
	M("C_ITEM.DISGUISEGUILD", disguise_guild, TINT, 1, 0) \
	M("C_ITEM.VISUAL", visual, TSTRING, 1, 0) \
	M("C_ITEM.VISUAL_CHANGE", visual_change, TSTRING, 1, 0) \
	M("C_ITEM.VISUAL_SKIN", visual_skin, TINT, 1, 0) \
	M("C_ITEM.SCEMENAME", scheme_name, TSTRING, 1, 0) \
	M("C_ITEM.MATERIAL", material, TINT, 1, 0) \
	M("C_ITEM.MUNITION", munition, TINT, 1, 0) \
	M("C_ITEM.SPELL", spell, TINT, 1, 0) \
	M("C_ITEM.RANGE", range, TINT, 1, 0) \
	M("C_ITEM.MAG_CIRCLE", mag_circle, TINT, 1, 0) \
	M("C_ITEM.DESCRIPTION", description, TSTRING, 1, 0) \
	M("C_ITEM.TEXT", text, TSTRING, 6, 0) \
	M("C_ITEM.COUNT", count, TINT, 6, 0) \
	M("C_ITEM.INV_ZBIAS", inv_zbias, TINT, 1, 1) \
	M("C_ITEM.INV_ROTX", inv_rot_x, TINT, 1, 1) \
	M("C_ITEM.INV_ROTY", inv_rot_y, TINT, 1, 1) \
	M("C_ITEM.INV_ROTZ", inv_rot_z, TINT, 1, 1) \
	M("C_ITEM.INV_ANIMATE", inv_animate, TINT, 1, 1) \
	M("C_ITEM.EFFECT", effect, TSTRING, 1, 2) \

#define TAB_C_FOCUS(M) \
	M("C_FOCUS.NPC_LONGRANGE", npc_longrange, TFLOAT, 1, 0) \
	M("C_FOCUS.NPC_RANGE1", npc_range1, TFLOAT, 1, 0) \
	M("C_FOCUS.NPC_RANGE2", npc_range2, TFLOAT, 1, 0) \
	M("C_FOCUS.NPC_AZI", npc_azi, TFLOAT, 1, 0) \
	M("C_FOCUS.NPC_ELEVDO", npc_elevdo, TFLOAT, 1, 0) \
	M("C_FOCUS.NPC_ELEVUP", npc_elevup, TFLOAT, 1, 0) \
	M("C_FOCUS.NPC_PRIO", npc_prio, TINT, 1, 0) \
	M("C_FOCUS.ITEM_RANGE1", item_range1, TFLOAT, 1, 0) \
	M("C_FOCUS.ITEM_RANGE2", item_range2, TFLOAT, 1, 0) \
	M("C_FOCUS.ITEM_AZI", item_azi, TFLOAT, 1, 0) \
	M("C_FOCUS.ITEM_ELEVDO", item_elevdo, TFLOAT, 1, 0) \
	M("C_FOCUS.ITEM_ELEVUP", item_elevup, TFLOAT, 1, 0) \
	M("C_FOCUS.ITEM_PRIO", item_prio, TINT, 1, 0) \
	M("C_FOCUS.MOB_RANGE1", mob_range1, TFLOAT, 1, 0) \
	M("C_FOCUS.MOB_RANGE2", mob_range2, TFLOAT, 1, 0) \
	M("C_FOCUS.MOB_AZI", mob_azi, TFLOAT, 1, 0) \
	M("C_FOCUS.MOB_ELEVDO", mob_elevdo, TFLOAT, 1, 0) \
	M("C_FOCUS.MOB_ELEVUP", mob_elevup, TFLOAT, 1, 0) \
	M("C_FOCUS.MOB_PRIO", mob_prio, TINT, 1, 0) \

#define TAB_C_INFO(M) \
	M("C_INFO.NPC", npc, TINT, 1, 0) \
	M("C_INFO.NR", nr, TINT, 1, 0) \
	M("C_INFO.IMPORTANT", important, TINT, 1, 0) \
	M("C_INFO.CONDITION", condition, TFUNC, 1, 0) \
	M("C_INFO.INFORMATION", information, TFUNC, 1, 0) \
	M("C_INFO.DESCRIPTION", description, TSTRING, 1, 0) \
	M("C_INFO.TRADE", trade, TINT, 1, 0) \
	M("C_INFO.PERMANENT", permanent, TINT, 1, 0) \

#define TAB_C_ITEMREACT(M) \
	M("C_ITEMREACT.NPC", npc, TINT, 1, 0) \
	M("C_ITEMREACT.TRADE_ITEM", trade_item, TINT, 1, 0) \
	M("C_ITEMREACT.TRADE_AMOUNT", trade_amount, TINT, 1, 0) \
	M("C_ITEMREACT.REQUESTED_CAT", requested_cat, TINT, 1, 0) \
	M("C_ITEMREACT.REQUESTED_ITEM", requested_item, TINT, 1, 0) \
	M("C_ITEMREACT.REQUESTED_AMOUNT", requested_amount, TINT, 1, 0) \
	M("C_ITEMREACT.REACTION", reaction, TFUNC, 1, 0) \

#define TAB_C_SPELL(M) \
	M("C_SPELL.TIME_PER_MANA", time_per_mana, TFLOAT, 1, 0) \
	M("C_SPELL.DAMAGE_PER_LEVEL", damage_per_level, TINT, 1, 0) \
	M("C_SPELL.DAMAGETYPE", damage_type, TINT, 1, 0) \
	M("C_SPELL.SPELLTYPE", spell_type, TINT, 1, 0) \
	M("C_SPELL.CANTURNDURINGINVEST", can_turn_during_invest, TINT, 1, 0) \
	M("C_SPELL.CANCHANGETARGETDURINGINVEST", can_change_target_during_invest, TINT, 1, 0) \
	M("C_SPELL.ISMULTIEFFECT", is_multi_effect, TINT, 1, 0) \
	M("C_SPELL.TARGETCOLLECTALGO", target_collect_algo, TINT, 1, 0) \
	M("C_SPELL.TARGETCOLLECTTYPE", target_collect_type, TINT, 1, 0) \
	M("C_SPELL.TARGETCOLLECTRANGE", target_collect_range, TINT, 1, 0) \
	M("C_SPELL.TARGETCOLLECTAZI", target_collect_azi, TINT, 1, 0) \
	M("C_SPELL.TARGETCOLLECTELEV", target_collect_elev, TINT, 1, 0) \

#define TAB_C_SVM(M) \
	M("C_SVM.MILGREETINGS", mil_greetings, TSTRING, 1, 1) \
	M("C_SVM.PALGREETINGS", pal_greetings, TSTRING, 1, 2) \
	M("C_SVM.WEATHER", weather, TSTRING, 1, 1) \
	M("C_SVM.IGETYOUSTILL", iget_you_still, TSTRING, 1, 2) \
	M("C_SVM.DIEENEMY", die_enemy, TSTRING, 1, 1) \
	M("C_SVM.DIEMONSTER", die_monster, TSTRING, 1, 2) \
	M("C_SVM.ADDON_DIEMONSTER", addon_die_monster, TSTRING, 1, 1) \
	M("C_SVM.ADDON_DIEMONSTER2", addon_die_monster_2, TSTRING, 1, 2) \
	M("C_SVM.DIRTYTHIEF", dirty_thief, TSTRING, 1, 1) \
	M("C_SVM.HANDSOFF", hands_off, TSTRING, 1, 2) \
	M("C_SVM.SHEEPKILLER", sheep_killer, TSTRING, 1, 1) \
	M("C_SVM.SHEEPKILLERMONSTER", sheep_killer_monster, TSTRING, 1, 2) \
	M("C_SVM.YOUMURDERER", you_murderer, TSTRING, 1, 1) \
	M("C_SVM.DIESTUPIDBEAST", die_stupid_beast, TSTRING, 1, 2) \
	M("C_SVM.YOUDAREHITME", you_dare_hit_me, TSTRING, 1, 1) \
	M("C_SVM.YOUASKEDFORIT", you_asked_for_it, TSTRING, 1, 2) \
	M("C_SVM.THENIBEATYOUOUTOFHERE", then_ibeat_you_out_of_here, TSTRING, 1, 1) \
	M("C_SVM.WHATDIDYOUDOINTHERE", what_did_you_do_in_there, TSTRING, 1, 2) \
	M("C_SVM.WILLYOUSTOPFIGHTING", will_you_stop_fighting, TSTRING, 1, 1) \
	M("C_SVM.KILLENEMY", kill_enemy, TSTRING, 1, 2) \
	M("C_SVM.ENEMYKILLED", enemy_killed, TSTRING, 1, 1) \
	M("C_SVM.MONSTERKILLED", monster_killed, TSTRING, 1, 2) \
	M("C_SVM.ADDON_MONSTERKILLED", addon_monster_killed, TSTRING, 1, 1) \
	M("C_SVM.ADDON_MONSTERKILLED2", addon_monster_killed_2, TSTRING, 1, 2) \
	M("C_SVM.THIEFDOWN", thief_down, TSTRING, 1, 1) \
	M("C_SVM.RUMFUMMLERDOWN", rumfummler_down, TSTRING, 1, 2) \
	M("C_SVM.SHEEPATTACKERDOWN", sheep_attacker_down, TSTRING, 1, 1) \
	M("C_SVM.KILLMURDERER", kill_murderer, TSTRING, 1, 2) \
	M("C_SVM.STUPIDBEASTKILLED", stupid_beast_killed, TSTRING, 1, 1) \
	M("C_SVM.NEVERHITMEAGAIN", never_hit_me_again, TSTRING, 1, 2) \
	M("C_SVM.YOUBETTERSHOULDHAVELISTENED", you_better_should_have_listened, TSTRING, 1, 1) \
	M("C_SVM.GETUPANDBEGONE", get_up_and_begone, TSTRING, 1, 2) \
	M("C_SVM.NEVERENTERROOMAGAIN", never_enter_room_again, TSTRING, 1, 1) \
	M("C_SVM.THEREISNOFIGHTINGHERE", there_is_no_fighting_here, TSTRING, 1, 2) \
	M("C_SVM.SPAREME", spare_me, TSTRING, 1, 1) \
	M("C_SVM.RUNAWAY", run_away, TSTRING, 1, 2) \
	M("C_SVM.ALARM", alarm, TSTRING, 1, 1) \
	M("C_SVM.GUARDS", guards, TSTRING, 1, 2) \
	M("C_SVM.HELP", help, TSTRING, 1, 1) \
	M("C_SVM.GOODMONSTERKILL", good_monster_kill, TSTRING, 1, 2) \
	M("C_SVM.GOODKILL", good_kill, TSTRING, 1, 1) \
	M("C_SVM.NOTNOW", not_now, TSTRING, 1, 2) \
	M("C_SVM.RUNCOWARD", run_coward, TSTRING, 1, 1) \
	M("C_SVM.GETOUTOFHERE", get_out_of_here, TSTRING, 1, 2) \
	M("C_SVM.WHYAREYOUINHERE", why_are_you_in_here, TSTRING, 1, 1) \
	M("C_SVM.YESGOOUTOFHERE", yes_go_out_of_here, TSTRING, 1, 2) \
	M("C_SVM.WHATSTHISSUPPOSEDTOBE", whats_this_supposed_to_be, TSTRING, 1, 1) \
	M("C_SVM.YOUDISTURBEDMYSLUMBER", you_disturbed_my_slumber, TSTRING, 1, 2) \
	M("C_SVM.ITOOKYOURGOLD", itook_your_gold, TSTRING, 1, 1) \
	M("C_SVM.SHITNOGOLD", shit_no_gold, TSTRING, 1, 2) \
	M("C_SVM.ITAKEYOURWEAPON", itake_your_weapon, TSTRING, 1, 1) \
	M("C_SVM.WHATAREYOUDOING", what_are_you_doing, TSTRING, 1, 2) \
	M("C_SVM.LOOKINGFORTROUBLEAGAIN", looking_for_trouble_again, TSTRING, 1, 1) \
	M("C_SVM.STOPMAGIC", stop_magic, TSTRING, 1, 2) \
	M("C_SVM.ISAIDSTOPMAGIC", isaid_stop_magic, TSTRING, 1, 1) \
	M("C_SVM.WEAPONDOWN", weapon_down, TSTRING, 1, 2) \
	M("C_SVM.ISAIDWEAPONDOWN", isaid_weapon_down, TSTRING, 1, 1) \
	M("C_SVM.WISEMOVE", wise_move, TSTRING, 1, 2) \
	M("C_SVM.NEXTTIMEYOUREINFORIT", next_time_youre_in_for_it, TSTRING, 1, 1) \
	M("C_SVM.OHMYHEAD", oh_my_head, TSTRING, 1, 2) \
	M("C_SVM.THERESAFIGHT", theres_afight, TSTRING, 1, 1) \
	M("C_SVM.OHMYGODITSAFIGHT", oh_my_god_its_afight, TSTRING, 1, 2) \
	M("C_SVM.GOODVICTORY", good_victory, TSTRING, 1, 1) \
	M("C_SVM.NOTBAD", not_bad, TSTRING, 1, 2) \
	M("C_SVM.OHMYGODHESDOWN", oh_my_god_hes_down, TSTRING, 1, 1) \
	M("C_SVM.CHEERFRIEND01", cheer_friend_01, TSTRING, 1, 2) \
	M("C_SVM.CHEERFRIEND02", cheer_friend_02, TSTRING, 1, 1) \
	M("C_SVM.CHEERFRIEND03", cheer_friend_03, TSTRING, 1, 2) \
	M("C_SVM.OOH01", ooh_01, TSTRING, 1, 1) \
	M("C_SVM.OOH02", ooh_02, TSTRING, 1, 2) \
	M("C_SVM.OOH03", ooh_03, TSTRING, 1, 1) \
	M("C_SVM.WHATWASTHAT", what_was_that, TSTRING, 1, 2) \
	M("C_SVM.GETOUTOFMYBED", get_out_of_my_bed, TSTRING, 1, 1) \
	M("C_SVM.AWAKE", awake, TSTRING, 1, 2) \
	M("C_SVM.ABS_COMMANDER", abs_commander, TSTRING, 1, 1) \
	M("C_SVM.ABS_MONASTERY", abs_monastery, TSTRING, 1, 2) \
	M("C_SVM.ABS_FARM", abs_farm, TSTRING, 1, 1) \
	M("C_SVM.ABS_GOOD", abs_good, TSTRING, 1, 2) \
	M("C_SVM.SHEEPKILLER_CRIME", sheep_killer_crime, TSTRING, 1, 1) \
	M("C_SVM.ATTACK_CRIME", attack_crime, TSTRING, 1, 2) \
	M("C_SVM.THEFT_CRIME", theft_crime, TSTRING, 1, 1) \
	M("C_SVM.MURDER_CRIME", murder_crime, TSTRING, 1, 2) \
	M("C_SVM.PAL_CITY_CRIME", pal_city_crime, TSTRING, 1, 1) \
	M("C_SVM.MIL_CITY_CRIME", mil_city_crime, TSTRING, 1, 2) \
	M("C_SVM.CITY_CRIME", city_crime, TSTRING, 1, 1) \
	M("C_SVM.MONA_CRIME", mona_crime, TSTRING, 1, 2) \
	M("C_SVM.FARM_CRIME", farm_crime, TSTRING, 1, 1) \
	M("C_SVM.OC_CRIME", oc_crime, TSTRING, 1, 2) \
	M("C_SVM.TOUGHGUY_ATTACKLOST", toughguy_attack_lost, TSTRING, 1, 1) \
	M("C_SVM.TOUGHGUY_ATTACKWON", toughguy_attack_won, TSTRING, 1, 2) \
	M("C_SVM.TOUGHGUY_PLAYERATTACK", toughguy_player_attack, TSTRING, 1, 1) \
	M("C_SVM.GOLD_1000", gold_1000, TSTRING, 1, 2) \
	M("C_SVM.GOLD_950", gold_950, TSTRING, 1, 1) \
	M("C_SVM.GOLD_900", gold_900, TSTRING, 1, 2) \
	M("C_SVM.GOLD_850", gold_850, TSTRING, 1, 1) \
	M("C_SVM.GOLD_800", gold_800, TSTRING, 1, 2) \
	M("C_SVM.GOLD_750", gold_750, TSTRING, 1, 1) \
	M("C_SVM.GOLD_700", gold_700, TSTRING, 1, 2) \
	M("C_SVM.GOLD_650", gold_650, TSTRING, 1, 1) \
	M("C_SVM.GOLD_600", gold_600, TSTRING, 1, 2) \
	M("C_SVM.GOLD_550", gold_550, TSTRING, 1, 1) \
	M("C_SVM.GOLD_500", gold_500, TSTRING, 1, 2) \
	M("C_SVM.GOLD_450", gold_450, TSTRING, 1, 1) \
	M("C_SVM.GOLD_400", gold_400, TSTRING, 1, 2) \
	M("C_SVM.GOLD_350", gold_350, TSTRING, 1, 1) \
	M("C_SVM.GOLD_300", gold_300, TSTRING, 1, 2) \
	M("C_SVM.GOLD_250", gold_250, TSTRING, 1, 1) \
	M("C_SVM.GOLD_200", gold_200, TSTRING, 1, 2) \
	M("C_SVM.GOLD_150", gold_150, TSTRING, 1, 1) \
	M("C_SVM.GOLD_100", gold_100, TSTRING, 1, 2) \
	M("C_SVM.GOLD_90", gold_90, TSTRING, 1, 1) \
	M("C_SVM.GOLD_80", gold_80, TSTRING, 1, 2) \
	M("C_SVM.GOLD_70", gold_70, TSTRING, 1, 1) \
	M("C_SVM.GOLD_60", gold_60, TSTRING, 1, 2) \
	M("C_SVM.GOLD_50", gold_50, TSTRING, 1, 1) \
	M("C_SVM.GOLD_40", gold_40, TSTRING, 1, 2) \
	M("C_SVM.GOLD_30", gold_30, TSTRING, 1, 1) \
	M("C_SVM.GOLD_20", gold_20, TSTRING, 1, 2) \
	M("C_SVM.GOLD_10", gold_10, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK01", smalltalk_01, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK02", smalltalk_02, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK03", smalltalk_03, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK04", smalltalk_04, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK05", smalltalk_05, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK06", smalltalk_06, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK07", smalltalk_07, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK08", smalltalk_08, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK09", smalltalk_09, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK10", smalltalk_10, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK11", smalltalk_11, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK12", smalltalk_12, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK13", smalltalk_13, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK14", smalltalk_14, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK15", smalltalk_15, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK16", smalltalk_16, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK17", smalltalk_17, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK18", smalltalk_18, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK19", smalltalk_19, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK20", smalltalk_20, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK21", smalltalk_21, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK22", smalltalk_22, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK23", smalltalk_23, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK24", smalltalk_24, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK25", smalltalk_25, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK26", smalltalk_26, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK27", smalltalk_27, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK28", smalltalk_28, TSTRING, 1, 1) \
	M("C_SVM.SMALLTALK29", smalltalk_29, TSTRING, 1, 2) \
	M("C_SVM.SMALLTALK30", smalltalk_30, TSTRING, 1, 1) \
	M("C_SVM.NOLEARNNOPOINTS", no_learn_no_points, TSTRING, 1, 2) \
	M("C_SVM.NOLEARNOVERPERSONALMAX", no_learn_over_personal_max, TSTRING, 1, 1) \
	M("C_SVM.NOLEARNYOUREBETTER", no_learn_youre_better, TSTRING, 1, 2) \
	M("C_SVM.YOULEARNEDSOMETHING", you_learned_something, TSTRING, 1, 1) \
	M("C_SVM.UNTERSTADT", unterstadt, TSTRING, 1, 2) \
	M("C_SVM.OBERSTADT", oberstadt, TSTRING, 1, 1) \
	M("C_SVM.TEMPEL", tempel, TSTRING, 1, 2) \
	M("C_SVM.MARKT", markt, TSTRING, 1, 1) \
	M("C_SVM.GALGEN", galgen, TSTRING, 1, 2) \
	M("C_SVM.KASERNE", kaserne, TSTRING, 1, 1) \
	M("C_SVM.HAFEN", hafen, TSTRING, 1, 2) \
	M("C_SVM.WHERETO", whereto, TSTRING, 1, 1) \
	M("C_SVM.OBERSTADT_2_UNTERSTADT", oberstadt_2_unterstadt, TSTRING, 1, 2) \
	M("C_SVM.UNTERSTADT_2_OBERSTADT", unterstadt_2_oberstadt, TSTRING, 1, 1) \
	M("C_SVM.UNTERSTADT_2_TEMPEL", unterstadt_2_tempel, TSTRING, 1, 2) \
	M("C_SVM.UNTERSTADT_2_HAFEN", unterstadt_2_hafen, TSTRING, 1, 1) \
	M("C_SVM.TEMPEL_2_UNTERSTADT", tempel_2_unterstadt, TSTRING, 1, 2) \
	M("C_SVM.TEMPEL_2_MARKT", tempel_2_markt, TSTRING, 1, 1) \
	M("C_SVM.TEMPEL_2_GALGEN", tempel_2_galgen, TSTRING, 1, 2) \
	M("C_SVM.MARKT_2_TEMPEL", markt_2_tempel, TSTRING, 1, 1) \
	M("C_SVM.MARKT_2_KASERNE", markt_2_kaserne, TSTRING, 1, 2) \
	M("C_SVM.MARKT_2_GALGEN", markt_2_galgen, TSTRING, 1, 1) \
	M("C_SVM.GALGEN_2_TEMPEL", galgen_2_tempel, TSTRING, 1, 2) \
	M("C_SVM.GALGEN_2_MARKT", galgen_2_markt, TSTRING, 1, 1) \
	M("C_SVM.GALGEN_2_KASERNE", galgen_2_kaserne, TSTRING, 1, 2) \
	M("C_SVM.KASERNE_2_MARKT", kaserne_2_markt, TSTRING, 1, 1) \
	M("C_SVM.KASERNE_2_GALGEN", kaserne_2_galgen, TSTRING, 1, 2) \
	M("C_SVM.HAFEN_2_UNTERSTADT", hafen_2_unterstadt, TSTRING, 1, 1) \
	M("C_SVM.DEAD", dead, TSTRING, 1, 2) \
	M("C_SVM.AARGH_1", aargh_1, TSTRING, 1, 1) \
	M("C_SVM.AARGH_2", aargh_2, TSTRING, 1, 2) \
	M("C_SVM.AARGH_3", aargh_3, TSTRING, 1, 1) \
	M("C_SVM.ADDON_WRONGARMOR", addon_wrong_armor, TSTRING, 1, 2) \
	M("C_SVM.ADDON_WRONGARMOR_SLD", addon_wrong_armor_sld, TSTRING, 1, 1) \
	M("C_SVM.ADDON_WRONGARMOR_MIL", addon_wrong_armor_mil, TSTRING, 1, 2) \
	M("C_SVM.ADDON_WRONGARMOR_KDF", addon_wrong_armor_kdf, TSTRING, 1, 1) \
	M("C_SVM.ADDON_NOARMOR_BDT", addon_no_armor_bdt, TSTRING, 1, 2) \
	M("C_SVM.ADDON_DIEBANDIT", addon_die_bandit, TSTRING, 1, 1) \
	M("C_SVM.ADDON_DIRTYPIRATE", addon_dirty_pirate, TSTRING, 1, 2) \
	M("C_SVM.SC_HEYTURNAROUND", sc_hey_turn_around, TSTRING, 1, 1) \
	M("C_SVM.SC_HEYTURNAROUND02", sc_hey_turn_around_02, TSTRING, 1, 2) \
	M("C_SVM.SC_HEYTURNAROUND03", sc_hey_turn_around_03, TSTRING, 1, 1) \
	M("C_SVM.SC_HEYTURNAROUND04", sc_hey_turn_around_04, TSTRING, 1, 2) \
	M("C_SVM.SC_HEYWAITASECOND", sc_hey_wait_asecond, TSTRING, 1, 1) \
	M("C_SVM.DOESNTWORK", doesnt_mork, TSTRING, 1, 2) \
	M("C_SVM.PICKBROKE", pick_broke, TSTRING, 1, 1) \
	M("C_SVM.NEEDKEY", need_key, TSTRING, 1, 2) \
	M("C_SVM.NOMOREPICKS", no_more_picks, TSTRING, 1, 1) \
	M("C_SVM.NOPICKLOCKTALENT", no_pick_lock_talent, TSTRING, 1, 2) \
	M("C_SVM.NOSWEEPING", no_sweeping, TSTRING, 1, 1) \
	M("C_SVM.PICKLOCKORKEYMISSING", pick_lock_or_key_missing, TSTRING, 1, 2) \
	M("C_SVM.KEYMISSING", key_missing, TSTRING, 1, 1) \
	M("C_SVM.PICKLOCKMISSING", pick_lock_missing, TSTRING, 1, 2) \
	M("C_SVM.NEVEROPEN", never_open, TSTRING, 1, 1) \
	M("C_SVM.MISSINGITEM", missing_item, TSTRING, 1, 2) \
	M("C_SVM.DONTKNOW", dont_know, TSTRING, 1, 1) \
	M("C_SVM.NOTHINGTOGET", nothing_to_get, TSTRING, 1, 2) \
	M("C_SVM.NOTHINGTOGET02", nothing_to_get_02, TSTRING, 1, 1) \
	M("C_SVM.NOTHINGTOGET03", nothing_to_get_03, TSTRING, 1, 2) \
	M("C_SVM.HEALSHRINE", heal_shrine, TSTRING, 1, 1) \
	M("C_SVM.HEALLASTSHRINE", heal_last_shrine, TSTRING, 1, 2) \
	M("C_SVM.IRDORATHTHEREYOUARE", irdorath_there_you_are, TSTRING, 1, 1) \
	M("C_SVM.SCOPENSIRDORATHBOOK", sc_opens_irdorath_book, TSTRING, 1, 2) \
	M("C_SVM.SCOPENSLASTDOOR", sc_opens_last_door, TSTRING, 1, 1) \
	M("C_SVM.TRADE_1", trade_1, TSTRING, 1, 2) \
	M("C_SVM.TRADE_2", trade_2, TSTRING, 1, 1) \
	M("C_SVM.TRADE_3", trade_3, TSTRING, 1, 2) \
	M("C_SVM.VERSTEHE", verstehe, TSTRING, 1, 1) \
	M("C_SVM.FOUNDTREASURE", found_treasure, TSTRING, 1, 2) \
	M("C_SVM.CANTUNDERSTANDTHIS", cant_understand_this, TSTRING, 1, 1) \
	M("C_SVM.CANTREADTHIS", cant_read_this, TSTRING, 1, 2) \
	M("C_SVM.STONEPLATE_1", stoneplate_1, TSTRING, 1, 1) \
	M("C_SVM.STONEPLATE_2", stoneplate_2, TSTRING, 1, 2) \
	M("C_SVM.STONEPLATE_3", stoneplate_3, TSTRING, 1, 1) \
	M("C_SVM.COUGH", cough, TSTRING, 1, 2) \
	M("C_SVM.HUI", hui, TSTRING, 1, 1) \
	M("C_SVM.ADDON_THISLITTLEBASTARD", addon_this_little_bastard, TSTRING, 1, 2) \
	M("C_SVM.ADDON_OPENADANOSTEMPLE", addon_open_adanos_temple, TSTRING, 1, 1) \
	M("C_SVM.ATTENTAT_ADDON_DESCRIPTION", attentat_addon_description, TSTRING, 1, 2) \
	M("C_SVM.ATTENTAT_ADDON_DESCRIPTION2", attentat_addon_description_2, TSTRING, 1, 1) \
	M("C_SVM.ATTENTAT_ADDON_PRO", attentat_addon_pro, TSTRING, 1, 2) \
	M("C_SVM.ATTENTAT_ADDON_CONTRA", attentat_addon_contra, TSTRING, 1, 1) \
	M("C_SVM.MINE_ADDON_DESCRIPTION", mine_addon_description, TSTRING, 1, 2) \
	M("C_SVM.ADDON_SUMMONANCIENTGHOST", addon_summon_ancient_ghost, TSTRING, 1, 1) \
	M("C_SVM.ADDON_ANCIENTGHOST_NOTNEAR", addon_ancient_ghost_not_near, TSTRING, 1, 2) \
	M("C_SVM.ADDON_GOLD_DESCRIPTION", addon_gold_description, TSTRING, 1, 1) \
	M("C_SVM.WATCHYOURAIM", watch_your_aim, TSTRING, 1, 2) \
	M("C_SVM.WATCHYOURAIMANGRY", watch_your_aim_angry, TSTRING, 1, 1) \
	M("C_SVM.LETSFORGETOURLITTLEFIGHT", lets_forget_our_little_fight, TSTRING, 1, 2) \
	M("C_SVM.STRANGE", strange, TSTRING, 1, 1) \
	M("C_SVM.DIEMORTALENEMY", die_mortal_enemy, TSTRING, 1, 2) \
	M("C_SVM.NOWWAIT", now_wait, TSTRING, 1, 1) \
	M("C_SVM.NOWWAITINTRUDER", now_wait_intruder, TSTRING, 1, 2) \
	M("C_SVM.YOUSTILLNOTHAVEENOUGH", you_still_not_have_enough, TSTRING, 1, 1) \
	M("C_SVM.YOUATTACKEDMYCHARGE", you_attacked_my_charge, TSTRING, 1, 2) \
	M("C_SVM.IWILLTEACHYOURESPECTFORFOREIGNPROPERTY", iwill_teach_you_respect_for_foreign_property, TSTRING, 1, 1) \
	M("C_SVM.YOUKILLEDONEOFUS", you_killed_one_of_us, TSTRING, 1, 2) \
	M("C_SVM.BERZERK", berzerk, TSTRING, 1, 1) \
	M("C_SVM.YOULLBESORRYFORTHIS", youll_be_sorry_for_this, TSTRING, 1, 2) \
	M("C_SVM.YESYES", yes_yes, TSTRING, 1, 1) \
	M("C_SVM.SHITWHATAMONSTER", shit_what_amonster, TSTRING, 1, 2) \
	M("C_SVM.WEWILLMEETAGAIN", we_will_meet_again, TSTRING, 1, 1) \
	M("C_SVM.NEVERTRYTHATAGAIN", never_try_that_again, TSTRING, 1, 2) \
	M("C_SVM.ITOOKYOURORE", itook_your_ore, TSTRING, 1, 1) \
	M("C_SVM.SHITNOORE", shit_no_ore, TSTRING, 1, 2) \
	M("C_SVM.YOUVIOLATEDFORBIDDENTERRITORY", you_violated_forbidden_territory, TSTRING, 1, 1) \
	M("C_SVM.YOUWANNAFOOLME", you_wanna_fool_me, TSTRING, 1, 2) \
	M("C_SVM.WHATDIDYOUINTHERE", what_did_you_in_there, TSTRING, 1, 1) \
	M("C_SVM.INTRUDERALERT", intruder_alert, TSTRING, 1, 2) \
	M("C_SVM.BEHINDYOU", behind_you, TSTRING, 1, 1) \
	M("C_SVM.HEYHEYHEY", hey_hey_hey, TSTRING, 1, 2) \
	M("C_SVM.CHEERFIGHT", cheer_fight, TSTRING, 1, 1) \
	M("C_SVM.CHEERFRIEND", cheer_friend, TSTRING, 1, 2) \
	M("C_SVM.OOH", ooh, TSTRING, 1, 1) \
	M("C_SVM.YEAHWELLDONE", yeah_well_done, TSTRING, 1, 2) \
	M("C_SVM.HEDEFEATEDHIM", he_defeatedhim, TSTRING, 1, 1) \
	M("C_SVM.HEDESERVEDIT", he_deserv_edit, TSTRING, 1, 2) \
	M("C_SVM.HEKILLEDHIM", he_killed_him, TSTRING, 1, 1) \
	M("C_SVM.ITWASAGOODFIGHT", it_was_agood_fight, TSTRING, 1, 2) \
	M("C_SVM.FRIENDLYGREETINGS", friendly_greetings, TSTRING, 1, 1) \
	M("C_SVM.ALGREETINGS", al_greetings, TSTRING, 1, 2) \
	M("C_SVM.MAGEGREETINGS", mage_greetings, TSTRING, 1, 1) \
	M("C_SVM.SECTGREETINGS", sect_greetings, TSTRING, 1, 2) \
	M("C_SVM.THEREHEIS", there_he_is, TSTRING, 1, 1) \
	M("C_SVM.NOLEARNOVERMAX", no_learn_over_max, TSTRING, 1, 2) \
	M("C_SVM.NOLEARNYOUALREADYKNOW", no_learn_you_already_know, TSTRING, 1, 1) \
	M("C_SVM.HEYYOU", hey_you, TSTRING, 1, 2) \
	M("C_SVM.WHATDOYOUWANT", what_do_you_want, TSTRING, 1, 1) \
	M("C_SVM.ISAIDWHATDOYOUWANT", isaid_what_do_you_want, TSTRING, 1, 2) \
	M("C_SVM.MAKEWAY", make_way, TSTRING, 1, 1) \
	M("C_SVM.OUTOFMYWAY", out_of_my_way, TSTRING, 1, 2) \
	M("C_SVM.YOUDEAFORWHAT", you_deaf_or_what, TSTRING, 1, 1) \
	M("C_SVM.LOOKAWAY", look_away, TSTRING, 1, 2) \
	M("C_SVM.OKAYKEEPIT", okay_keep_it, TSTRING, 1, 1) \
	M("C_SVM.WHATSTHAT", whats_that, TSTRING, 1, 2) \
	M("C_SVM.THATSMYWEAPON", thats_my_weapon, TSTRING, 1, 1) \
	M("C_SVM.GIVEITTOME", give_it_tome, TSTRING, 1, 2) \
	M("C_SVM.YOUCANKEEPTHECRAP", you_can_keep_the_crap, TSTRING, 1, 1) \
	M("C_SVM.THEYKILLEDMYFRIEND", they_killed_my_friend, TSTRING, 1, 2) \
	M("C_SVM.SUCKERGOTSOME", sucker_got_some, TSTRING, 1, 1) \
	M("C_SVM.SUCKERDEFEATEDEBR", sucker_defeated_ebr, TSTRING, 1, 2) \
	M("C_SVM.SUCKERDEFEATEDGUR", sucker_defeated_gur, TSTRING, 1, 1) \
	M("C_SVM.SUCKERDEFEATEDMAGE", sucker_defeated_mage, TSTRING, 1, 2) \
	M("C_SVM.SUCKERDEFEATEDNOV_GUARD", sucker_defeated_nov_guard, TSTRING, 1, 1) \
	M("C_SVM.SUCKERDEFEATEDVLK_GUARD", sucker_defeated_vlk_guard, TSTRING, 1, 2) \
	M("C_SVM.YOUDEFEATEDMYCOMRADE", you_defeated_my_comrade, TSTRING, 1, 1) \
	M("C_SVM.YOUDEFEATEDNOV_GUARD", you_defeated_nov_guard, TSTRING, 1, 2) \
	M("C_SVM.YOUDEFEATEDVLK_GUARD", you_defeated_vlk_guard, TSTRING, 1, 1) \
	M("C_SVM.YOUSTOLEFROMME", you_stole_from_me, TSTRING, 1, 2) \
	M("C_SVM.YOUSTOLEFROMUS", you_stole_from_us, TSTRING, 1, 1) \
	M("C_SVM.YOUSTOLEFROMEBR", you_stole_from_ebr, TSTRING, 1, 2) \
	M("C_SVM.YOUSTOLEFROMGUR", you_stole_from_gur, TSTRING, 1, 1) \
	M("C_SVM.STOLEFROMMAGE", stole_urom_mage, TSTRING, 1, 2) \
	M("C_SVM.YOUKILLEDMYFRIEND", you_killedmyfriend, TSTRING, 1, 1) \
	M("C_SVM.YOUKILLEDEBR", you_killed_ebr, TSTRING, 1, 2) \
	M("C_SVM.YOUKILLEDGUR", you_killed_gur, TSTRING, 1, 1) \
	M("C_SVM.YOUKILLEDMAGE", you_killed_mage, TSTRING, 1, 2) \
	M("C_SVM.YOUKILLEDOCFOLK", you_killed_oc_folk, TSTRING, 1, 1) \
	M("C_SVM.YOUKILLEDNCFOLK", you_killed_nc_folk, TSTRING, 1, 2) \
	M("C_SVM.YOUKILLEDPSIFOLK", you_killed_psi_folk, TSTRING, 1, 1) \
	M("C_SVM.GETTHINGSRIGHT", get_things_right, TSTRING, 1, 2) \
	M("C_SVM.YOUDEFEATEDMEWELL", you_defeated_me_well, TSTRING, 1, 1) \
	M("C_SVM.OM", om, TSTRING, 1, 2) \

#define TAB_C_MENU(M) \
	M("C_MENU.BACKPIC", back_pic, TSTRING, 1, 0) \
	M("C_MENU.BACKWORLD", back_world, TSTRING, 1, 0) \
	M("C_MENU.POSX", pos_x, TINT, 1, 0) \
	M("C_MENU.POSY", pos_y, TINT, 1, 0) \
	M("C_MENU.DIMX", dim_x, TINT, 1, 0) \
	M("C_MENU.DIMY", dim_y, TINT, 1, 0) \
	M("C_MENU.ALPHA", alpha, TINT, 1, 0) \
	M("C_MENU.MUSICTHEME", music_theme, TSTRING, 1, 0) \
	M("C_MENU.EVENTTIMERMSEC", event_timer_msec, TINT, 1, 0) \
	M("C_MENU.ITEMS", items, TSTRING, 150, 0) \
	M("C_MENU.FLAGS", flags, TINT, 1, 0) \
	M("C_MENU.DEFAULTOUTGAME", default_outgame, TINT, 1, 0) \
	M("C_MENU.DEFAULTINGAME", default_ingame, TINT, 1, 0) \

#define TAB_C_MENU_ITEM(M) \
	M("C_MENU_ITEM.FONTNAME", fontname, TSTRING, 1, 0) \
	M("C_MENU_ITEM.TEXT", text, TSTRING, 10, 0) \
	M("C_MENU_ITEM.BACKPIC", backpic, TSTRING, 1, 0) \
	M("C_MENU_ITEM.ALPHAMODE", alphamode, TSTRING, 1, 0) \
	M("C_MENU_ITEM.ALPHA", alpha, TINT, 1, 0) \
	M("C_MENU_ITEM.TYPE", type, TINT, 1, 0) \
	M("C_MENU_ITEM.ONSELACTION", on_sel_action, TINT, 5, 0) \
	M("C_MENU_ITEM.ONSELACTION_S", on_sel_action_s, TSTRING, 5, 0) \
	M("C_MENU_ITEM.ONCHGSETOPTION", on_chg_set_option, TSTRING, 1, 0) \
	M("C_MENU_ITEM.ONCHGSETOPTIONSECTION", on_chg_set_option_section, TSTRING, 1, 0) \
	M("C_MENU_ITEM.ONEVENTACTION", on_event_action, TFUNC, 10, 0) \
	M("C_MENU_ITEM.POSX", pos_x, TINT, 1, 0) \
	M("C_MENU_ITEM.POSY", pos_y, TINT, 1, 0) \
	M("C_MENU_ITEM.DIMX", dim_x, TINT, 1, 0) \
	M("C_MENU_ITEM.DIMY", dim_y, TINT, 1, 0) \
	M("C_MENU_ITEM.SIZESTARTSCALE", size_start_scale, TFLOAT, 1, 0) \
	M("C_MENU_ITEM.FLAGS", flags, TINT, 1, 0) \
	M("C_MENU_ITEM.OPENDELAYTIME", open_delay_time, TFLOAT, 1, 0) \
	M("C_MENU_ITEM.OPENDURATION", open_duration, TFLOAT, 1, 0) \
	M("C_MENU_ITEM.USERFLOAT", user_float, TFLOAT, 4, 0) \
	M("C_MENU_ITEM.USERSTRING", user_string, TSTRING, 4, 0) \
	M("C_MENU_ITEM.FRAMESIZEX", frame_sizex, TINT, 1, 0) \
	M("C_MENU_ITEM.FRAMESIZEY", frame_sizey, TINT, 1, 0) \
	M("C_MENU_ITEM.FRAMEPOSX", frame_posx, TINT, 1, 1) \
	M("C_MENU_ITEM.FRAMEPOSY", frame_posy, TINT, 1, 1) \
	M("C_MENU_ITEM.HIDEIFOPTIONSECTIONSET", hide_if_option_section_set, TSTRING, 1, 2) \
	M("C_MENU_ITEM.HIDEIFOPTIONSET", hide_if_option_set, TSTRING, 1, 2) \
	M("C_MENU_ITEM.HIDEONVALUE", hide_on_value, TINT, 1, 2) \

#define TAB_CCAMSYS(M) \
	M("CCAMSYS.BESTRANGE", best_range, TFLOAT, 1, 0) \
	M("CCAMSYS.MINRANGE", min_range, TFLOAT, 1, 0) \
	M("CCAMSYS.MAXRANGE", max_range, TFLOAT, 1, 0) \
	M("CCAMSYS.BESTELEVATION", best_elevation, TFLOAT, 1, 0) \
	M("CCAMSYS.MINELEVATION", min_elevation, TFLOAT, 1, 0) \
	M("CCAMSYS.MAXELEVATION", max_elevation, TFLOAT, 1, 0) \
	M("CCAMSYS.BESTAZIMUTH", best_azimuth, TFLOAT, 1, 0) \
	M("CCAMSYS.MINAZIMUTH", min_azimuth, TFLOAT, 1, 0) \
	M("CCAMSYS.MAXAZIMUTH", max_azimuth, TFLOAT, 1, 0) \
	M("CCAMSYS.BESTROTZ", best_rot_z, TFLOAT, 1, 0) \
	M("CCAMSYS.MINROTZ", min_rot_z, TFLOAT, 1, 0) \
	M("CCAMSYS.MAXROTZ", max_rot_z, TFLOAT, 1, 0) \
	M("CCAMSYS.ROTOFFSETX", rot_offset_x, TFLOAT, 1, 0) \
	M("CCAMSYS.ROTOFFSETY", rot_offset_y, TFLOAT, 1, 0) \
	M("CCAMSYS.ROTOFFSETZ", rot_offset_z, TFLOAT, 1, 0) \
	M("CCAMSYS.TARGETOFFSETX", target_offset_x, TFLOAT, 1, 0) \
	M("CCAMSYS.TARGETOFFSETY", target_offset_y, TFLOAT, 1, 0) \
	M("CCAMSYS.TARGETOFFSETZ", target_offset_z, TFLOAT, 1, 0) \
	M("CCAMSYS.VELOTRANS", velo_trans, TFLOAT, 1, 0) \
	M("CCAMSYS.VELOROT", velo_rot, TFLOAT, 1, 0) \
	M("CCAMSYS.TRANSLATE", translate, TINT, 1, 0) \
	M("CCAMSYS.ROTATE", rotate, TINT, 1, 0) \
	M("CCAMSYS.COLLISION", collision, TINT, 1, 0) \

#define TAB_C_MUSICSYS_CFG(M) \
	M("C_MUSICSYS_CFG.VOLUME", volume, TFLOAT, 1, 0) \
	M("C_MUSICSYS_CFG.BITRESOLUTION", bit_resolution, TINT, 1, 0) \
	M("C_MUSICSYS_CFG.GLOBALREVERBENABLED", global_reverb_enabled, TINT, 1, 0) \
	M("C_MUSICSYS_CFG.SAMPLERATE", sample_rate, TINT, 1, 0) \
	M("C_MUSICSYS_CFG.NUMCHANNELS", num_channels, TINT, 1, 0) \
	M("C_MUSICSYS_CFG.REVERBBUFFERSIZE", reverb_buffer_size, TINT, 1, 0) \

#define TAB_C_MUSICTHEME(M) \
	M("C_MUSICTHEME.FILE", file, TSTRING, 1, 0) \
	M("C_MUSICTHEME.VOL", vol, TFLOAT, 1, 0) \
	M("C_MUSICTHEME.LOOP", loop, TINT, 1, 0) \
	M("C_MUSICTHEME.REVERBMIX", reverbmix, TFLOAT, 1, 0) \
	M("C_MUSICTHEME.REVERBTIME", reverbtime, TFLOAT, 1, 0) \
	M("C_MUSICTHEME.TRANSTYPE", transtype, TINT, 1, 0) \
	M("C_MUSICTHEME.TRANSSUBTYPE", transsubtype, TINT, 1, 0) \

#define TAB_C_MUSICJINGLE(M) \
	M("C_MUSICJINGLE.NAME", name, TSTRING, 1, 0) \
	M("C_MUSICJINGLE.LOOP", loop, TINT, 1, 0) \
	M("C_MUSICJINGLE.VOL", vol, TFLOAT, 1, 0) \
	M("C_MUSICJINGLE.TRANSSUBTYPE", transsubtype, TINT, 1, 0) \

#define TAB_C_PARTICLEFX(M) \
	M("C_PARTICLEFX.PPSVALUE", pps_value, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.PPSSCALEKEYS_S", pps_scale_keys_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.PPSISLOOPING", pps_is_looping, TINT, 1, 0) \
	M("C_PARTICLEFX.PPSISSMOOTH", pps_is_smooth, TINT, 1, 0) \
	M("C_PARTICLEFX.PPSFPS", pps_fps, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.PPSCREATEEM_S", pps_create_em_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.PPSCREATEEMDELAY", pps_create_em_delay, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.SHPTYPE_S", shp_type_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.SHPFOR_S", shp_for_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.SHPOFFSETVEC_S", shp_offset_vec_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.SHPDISTRIBTYPE_S", shp_distrib_type_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.SHPDISTRIBWALKSPEED", shp_distrib_walk_speed, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.SHPISVOLUME", shp_is_volume, TINT, 1, 0) \
	M("C_PARTICLEFX.SHPDIM_S", shp_dim_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.SHPMESH_S", shp_mesh_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.SHPMESHRENDER_B", shp_mesh_render_b, TINT, 1, 0) \
	M("C_PARTICLEFX.SHPSCALEKEYS_S", shp_scale_keys_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.SHPSCALEISLOOPING", shp_scale_is_looping, TINT, 1, 0) \
	M("C_PARTICLEFX.SHPSCALEISSMOOTH", shp_scale_is_smooth, TINT, 1, 0) \
	M("C_PARTICLEFX.SHPSCALEFPS", shp_scale_fps, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.DIRMODE_S", dir_mode_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.DIRFOR_S", dir_for_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.DIRMODETARGETFOR_S", dir_mode_target_for_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.DIRMODETARGETPOS_S", dir_mode_target_pos_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.DIRANGLEHEAD", dir_angle_head, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.DIRANGLEHEADVAR", dir_angle_head_var, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.DIRANGLEELEV", dir_angle_elev, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.DIRANGLEELEVVAR", dir_angle_elev_var, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.VELAVG", vel_avg, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.VELVAR", vel_var, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.LSPPARTAVG", lsp_part_avg, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.LSPPARTVAR", lsp_part_var, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.FLYGRAVITY_S", fly_gravity_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.FLYCOLLDET_B", fly_colldet_b, TINT, 1, 0) \
	M("C_PARTICLEFX.VISNAME_S", vis_name_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.VISORIENTATION_S", vis_orientation_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.VISTEXISQUADPOLY", vis_tex_is_quadpoly, TINT, 1, 0) \
	M("C_PARTICLEFX.VISTEXANIFPS", vis_tex_ani_fps, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.VISTEXANIISLOOPING", vis_tex_ani_is_looping, TINT, 1, 0) \
	M("C_PARTICLEFX.VISTEXCOLORSTART_S", vis_tex_color_start_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.VISTEXCOLOREND_S", vis_tex_color_end_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.VISSIZESTART_S", vis_size_start_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.VISSIZEENDSCALE", vis_size_end_scale, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.VISALPHAFUNC_S", vis_alpha_func_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.VISALPHASTART", vis_alpha_start, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.VISALPHAEND", vis_alpha_end, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.TRLFADESPEED", trl_fade_speed, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.TRLTEXTURE_S", trl_texture_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.TRLWIDTH", trl_width, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.MRKFADESPEED", mrk_fades_peed, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.MRKTEXTURE_S", mrkt_exture_s, TSTRING, 1, 0) \
	M("C_PARTICLEFX.MRKSIZE", mrk_size, TFLOAT, 1, 0) \
	M("C_PARTICLEFX.FLOCKMODE", flock_mode, TSTRING, 1, 1) \
	M("C_PARTICLEFX.FLOCKSTRENGTH", flock_strength, TFLOAT, 1, 1) \
	M("C_PARTICLEFX.USEEMITTERSFOR", use_emitters_for, TINT, 1, 1) \
	M("C_PARTICLEFX.TIMESTARTEND_S", time_start_end_s, TSTRING, 1, 1) \
	M("C_PARTICLEFX.M_BISAMBIENTPFX", m_bis_ambient_pfx, TINT, 1, 1) \

#define TAB_CFX_BASE(M) \
	M("CFX_BASE.VISNAME_S", vis_name_s, TSTRING, 1, 0) \
	M("CFX_BASE.VISSIZE_S", vis_size_s, TSTRING, 1, 0) \
	M("CFX_BASE.VISALPHA", vis_alpha, TFLOAT, 1, 0) \
	M("CFX_BASE.VISALPHABLENDFUNC_S", vis_alpha_blend_func_s, TSTRING, 1, 0) \
	M("CFX_BASE.VISTEXANIFPS", vis_tex_ani_fps, TFLOAT, 1, 0) \
	M("CFX_BASE.VISTEXANIISLOOPING", vis_tex_ani_is_looping, TINT, 1, 0) \
	M("CFX_BASE.EMTRJMODE_S", em_trj_mode_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMTRJORIGINNODE", em_trj_origin_node, TSTRING, 1, 0) \
	M("CFX_BASE.EMTRJTARGETNODE", em_trj_target_node, TSTRING, 1, 0) \
	M("CFX_BASE.EMTRJTARGETRANGE", em_trj_target_range, TFLOAT, 1, 0) \
	M("CFX_BASE.EMTRJTARGETAZI", em_trj_target_azi, TFLOAT, 1, 0) \
	M("CFX_BASE.EMTRJTARGETELEV", em_trj_target_elev, TFLOAT, 1, 0) \
	M("CFX_BASE.EMTRJNUMKEYS", em_trj_num_keys, TINT, 1, 0) \
	M("CFX_BASE.EMTRJNUMKEYSVAR", em_trj_num_keys_var, TINT, 1, 0) \
	M("CFX_BASE.EMTRJANGLEELEVVAR", em_trj_angle_elev_var, TFLOAT, 1, 0) \
	M("CFX_BASE.EMTRJANGLEHEADVAR", em_trj_angle_head_var, TFLOAT, 1, 0) \
	M("CFX_BASE.EMTRJKEYDISTVAR", em_trj_key_dist_var, TFLOAT, 1, 0) \
	M("CFX_BASE.EMTRJLOOPMODE_S", em_trj_loop_mode_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMTRJEASEFUNC_S", em_trj_ease_func_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMTRJEASEVEL", em_trj_ease_vel, TFLOAT, 1, 0) \
	M("CFX_BASE.EMTRJDYNUPDATEDELAY", em_trj_dyn_update_delay, TFLOAT, 1, 0) \
	M("CFX_BASE.EMTRJDYNUPDATETARGETONLY", em_trj_dyn_update_target_only, TINT, 1, 0) \
	M("CFX_BASE.EMFXCREATE_S", em_fx_create_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMFXINVESTORIGIN_S", em_fx_invest_origin_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMFXINVESTTARGET_S", em_fx_invest_target_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMFXTRIGGERDELAY", em_fx_trigger_delay, TFLOAT, 1, 0) \
	M("CFX_BASE.EMFXCREATEDOWNTRJ", em_fx_create_down_trj, TINT, 1, 0) \
	M("CFX_BASE.EMACTIONCOLLDYN_S", em_action_coll_dyn_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMACTIONCOLLSTAT_S", em_action_coll_stat_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMFXCOLLSTAT_S", em_fx_coll_stat_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMFXCOLLDYN_S", em_fx_coll_dyn_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMFXCOLLSTATALIGN_S", em_fx_coll_stat_align_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMFXCOLLDYNALIGN_S", em_fx_coll_dyn_align_s, TSTRING, 1, 0) \
	M("CFX_BASE.EMFXLIFESPAN", em_fx_lifespan, TFLOAT, 1, 0) \
	M("CFX_BASE.EMCHECKCOLLISION", em_check_collision, TINT, 1, 0) \
	M("CFX_BASE.EMADJUSTSHPTOORIGIN", em_adjust_shp_to_origin, TINT, 1, 0) \
	M("CFX_BASE.EMINVESTNEXTKEYDURATION", em_invest_next_key_duration, TFLOAT, 1, 0) \
	M("CFX_BASE.EMFLYGRAVITY", em_fly_gravity, TFLOAT, 1, 0) \
	M("CFX_BASE.EMSELFROTVEL_S", em_self_rot_vel_s, TSTRING, 1, 0) \
	M("CFX_BASE.USERSTRING", user_string, TSTRING, 5, 0) \
	M("CFX_BASE.LIGHTPRESETNAME", light_preset_name, TSTRING, 1, 0) \
	M("CFX_BASE.SFXID", sfx_id, TSTRING, 1, 0) \
	M("CFX_BASE.SFXISAMBIENT", sfx_is_ambient, TINT, 1, 0) \
	M("CFX_BASE.SENDASSESSMAGIC", send_assess_magic, TINT, 1, 0) \
	M("CFX_BASE.SECSPERDAMAGE", secs_per_damage, TFLOAT, 1, 0) \
	M("CFX_BASE.EMFXCOLLDYNPERC_S", em_fx_coll_dyn_perc_s, TSTRING, 1, 1) \

#define TAB_C_PARTICLEFXEMITKEY(M) \
	M("C_PARTICLEFXEMITKEY.VISNAME_S", vis_name_s, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.VISSIZESCALE", vis_size_scale, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.SCALEDURATION", scale_duration, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_PPSVALUE", pfx_pps_value, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_PPSISSMOOTHCHG", pfx_pps_is_smooth_chg, TINT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_PPSISLOOPINGCHG", pfx_pps_is_looping_chg, TINT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_SCTIME", pfx_sc_time, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_FLYGRAVITY_S", pfx_fly_gravity_s, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_SHPDIM_S", pfx_shp_dim_s, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_SHPISVOLUMECHG", pfx_shp_is_volume_chg, TINT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_SHPSCALEFPS", pfx_shp_scale_fps, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_SHPDISTRIBWALKSPEED", pfx_shp_distrib_walks_peed, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_SHPOFFSETVEC_S", pfx_shp_offset_vec_s, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_SHPDISTRIBTYPE_S", pfx_shp_distrib_type_s, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_DIRMODE_S", pfx_dir_mode_s, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_DIRFOR_S", pfx_dir_for_s, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_DIRMODETARGETFOR_S", pfx_dir_mode_target_for_s, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_DIRMODETARGETPOS_S", pfx_dir_mode_target_pos_s, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_VELAVG", pfx_vel_avg, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_LSPPARTAVG", pfx_lsp_part_avg, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.PFX_VISALPHASTART", pfx_vis_alpha_start, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.LIGHTPRESETNAME", light_preset_name, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.LIGHTRANGE", light_range, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.SFXID", sfx_id, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.SFXISAMBIENT", sfx_is_ambient, TINT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.EMCREATEFXID", em_create_fx_id, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.EMFLYGRAVITY", em_fly_gravity, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.EMSELFROTVEL_S", em_self_rot_vel_s, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.EMTRJMODE_S", em_trj_mode_s, TSTRING, 1, 0) \
	M("C_PARTICLEFXEMITKEY.EMTRJEASEVEL", em_trj_ease_vel, TFLOAT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.EMCHECKCOLLISION", em_check_collision, TINT, 1, 0) \
	M("C_PARTICLEFXEMITKEY.EMFXLIFESPAN", em_fx_lifespan, TFLOAT, 1, 0) \

#define TAB_C_FIGHTAI(M) \
	M("C_FIGHTAI.MOVE", move, TINT, 6, 0) \

#define TAB_C_SFX(M) \
	M("C_SFX.FILE", file, TSTRING, 1, 0) \
	M("C_SFX.PITCHOFF", pitch_off, TINT, 1, 0) \
	M("C_SFX.PITCHVAR", pitch_var, TINT, 1, 0) \
	M("C_SFX.VOL", vol, TINT, 1, 0) \
	M("C_SFX.LOOP", loop, TINT, 1, 0) \
	M("C_SFX.LOOPSTARTOFFSET", loop_start_offset, TINT, 1, 0) \
	M("C_SFX.LOOPENDOFFSET", loop_end_offset, TINT, 1, 0) \
	M("C_SFX.REVERBLEVEL", reverb_level, TFLOAT, 1, 0) \
	M("C_SFX.PFXNAME", pfx_name, TSTRING, 1, 0) \

#define TAB_C_SNDSYS_CFG(M) \
	M("C_SNDSYS_CFG.VOLUME", volume, TFLOAT, 1, 0) \
	M("C_SNDSYS_CFG.BITRESOLUTION", bit_resolution, TINT, 1, 0) \
	M("C_SNDSYS_CFG.SAMPLERATE", sample_rate, TINT, 1, 0) \
	M("C_SNDSYS_CFG.USESTEREO", use_stereo, TINT, 1, 0) \
	M("C_SNDSYS_CFG.NUMSFXCHANNELS", num_sfx_channels, TINT, 1, 0) \
	M("C_SNDSYS_CFG.USED3DPROVIDERNAME", used_3d_provider_name, TSTRING, 1, 0) \
