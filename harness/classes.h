// class names and class versions (Gothic 1, Gothic 2) under which the original games store each kind of object
#pragma once
#include <zenkit/Archive.hh>
struct ClassRecord { zenkit::ObjectType type; char const* name; uint16_t g1, g2; };
static ClassRecord const CLASSES[] = {
    {zenkit::ObjectType::zCVob, "zCVob", 12289, 52224},
    {zenkit::ObjectType::zCVobAnimate, "zCVobAnimate:zCVob", 12289, 52224},
    {zenkit::ObjectType::oCItem, "oCItem:zCVob", 0, 0},
    {zenkit::ObjectType::zCVobLensFlare, "zCVobLensFlare:zCVob", 64704, 193},
    {zenkit::ObjectType::zCPFXController, "zCPFXControler:zCVob", 12289, 52224},
    {zenkit::ObjectType::zCMessageFilter, "zCMessageFilter:zCVob", 0, 0},
    {zenkit::ObjectType::zCCodeMaster, "zCCodeMaster:zCVob", 0, 0},
    {zenkit::ObjectType::zCMoverController, "zCMoverControler:zCVob", 0, 0},
    {zenkit::ObjectType::oCTouchDamage, "oCTouchDamage:zCTouchDamage:zCVob", 36865, 36865},
    {zenkit::ObjectType::zCEarthquake, "zCEarthquake:zCVob", 52224, 52224},
    {zenkit::ObjectType::zCVobScreenFX, "zCVobScreenFX:zCVob", 12289, 52224},
    {zenkit::ObjectType::oCMOB, "oCMOB:zCVob", 47105, 47105},
    {zenkit::ObjectType::oCMobInter, "oCMobInter:oCMOB:zCVob", 35585, 35585},
    {zenkit::ObjectType::oCMobBed, "oCMobBed:oCMobInter:oCMOB:zCVob", 61440, 61440},
    {zenkit::ObjectType::oCMobLadder, "oCMobLadder:oCMobInter:oCMOB:zCVob", 35585, 35585},
    {zenkit::ObjectType::oCMobSwitch, "oCMobSwitch:oCMobInter:oCMOB:zCVob", 35585, 35585},
    {zenkit::ObjectType::oCMobWheel, "oCMobWheel:oCMobInter:oCMOB:zCVob", 35585, 35585},
    {zenkit::ObjectType::oCMobFire, "oCMobFire:oCMobInter:oCMOB:zCVob", 18433, 18433},
    {zenkit::ObjectType::oCMobDoor, "oCMobDoor:oCMobInter:oCMOB:zCVob", 64513, 64513},
    {zenkit::ObjectType::oCMobContainer, "oCMobContainer:oCMobInter:oCMOB:zCVob", 64513, 64513},
    {zenkit::ObjectType::zCTrigger, "zCTrigger:zCVob", 47105, 47105},
    {zenkit::ObjectType::oCCSTrigger, "oCCSTrigger:zCTrigger:zCVob", 24577, 24577},
    {zenkit::ObjectType::zCMover, "zCMover:zCTrigger:zCVob", 39936, 39936},
    {zenkit::ObjectType::zCTriggerList, "zCTriggerList:zCTrigger:zCVob", 59776, 5505},
    {zenkit::ObjectType::oCTriggerScript, "oCTriggerScript:zCTrigger:zCVob", 24577, 24577},
    {zenkit::ObjectType::oCTriggerChangeLevel, "oCTriggerChangeLevel:zCTrigger:zCVob", 24577, 24577},
    {zenkit::ObjectType::zCTriggerWorldStart, "zCTriggerWorldStart:zCVob", 52224, 52224},
    {zenkit::ObjectType::zCTriggerUntouch, "zCTriggerUntouch:zCVob", 193, 193},
    {zenkit::ObjectType::zCCamTrj_KeyFrame, "zCCamTrj_KeyFrame:zCVob", 12289, 52224},
    {zenkit::ObjectType::zCCSCamera, "zCCSCamera:zCVob", 30720, 33793},
    {zenkit::ObjectType::zCVobSound, "zCVobSound:zCVob", 12289, 12289},
    {zenkit::ObjectType::zCVobSoundDaytime, "zCVobSoundDaytime:zCVobSound:zCVob", 12289, 12289},
    {zenkit::ObjectType::oCZoneMusic, "oCZoneMusic:zCVob", 0, 0},
    {zenkit::ObjectType::oCZoneMusicDefault, "oCZoneMusicDefault:oCZoneMusic:zCVob", 0, 0},
    {zenkit::ObjectType::zCZoneVobFarPlane, "zCZoneVobFarPlane:zCVob", 12289, 52224},
    {zenkit::ObjectType::zCZoneVobFarPlaneDefault, "zCZoneVobFarPlaneDefault:zCZoneVobFarPlane:zCVob", 12289, 52224},
    {zenkit::ObjectType::zCZoneZFog, "zCZoneZFog:zCVob", 64704, 5505},
    {zenkit::ObjectType::zCZoneZFogDefault, "zCZoneZFogDefault:zCZoneZFog:zCVob", 64704, 5505},
    {zenkit::ObjectType::zCVobSpot, "zCVobSpot:zCVob", 12289, 52224},
    {zenkit::ObjectType::zCVobStair, "zCVobStair:zCVob", 12289, 52224},
    {zenkit::ObjectType::zCVobStartpoint, "zCVobStartpoint:zCVob", 12289, 52224},
    {zenkit::ObjectType::zCVobLevelCompo, "zCVobLevelCompo:zCVob", 12289, 52224},
    {zenkit::ObjectType::zCVobLight, "zCVobLight:zCVob", 46080, 39168},
    {zenkit::ObjectType::oCNpc, "oCNpc:zCVob", 52224, 52224},
    {zenkit::ObjectType::oCNpcTalent, "oCNpcTalent", 0, 0},
    {zenkit::ObjectType::zCMaterial, "zCMaterial", 17408, 39939},
    {zenkit::ObjectType::zCSkyControler_Outdoor, "zCSkyControler_Outdoor", 0, 0},
    {zenkit::ObjectType::oCCSPlayer, "oCCSPlayer:zCCSPlayer", 0, 0},
    {zenkit::ObjectType::zCCSLib, "zCCSLib", 0, 0},
    {zenkit::ObjectType::oCAIHuman, "oCAIHuman:oCAniCtrl_Human:zCAIPlayer", 0, 0},
    {zenkit::ObjectType::oCAIVobMove, "oCAIVobMove", 0, 0},
    {zenkit::ObjectType::zCCSCutsceneContext, "zCCSCutsceneContext:zCCutscene:zCCSBlock", 0, 0},
    {zenkit::ObjectType::zCCSProps, "zCCSProps", 0, 0},
    {zenkit::ObjectType::zCWayNet, "zCWayNet", 0, 0},
    {zenkit::ObjectType::oCWorld, "oCWorld:zCWorld", 64513, 64513},
    {zenkit::ObjectType::zCEventManager, "zCEventManager", 0, 0},
    {zenkit::ObjectType::oCSavegameInfo, "oCSavegameInfo", 0, 0},
    {zenkit::ObjectType::oCCSManager, "oCCSManager:zCCSManager", 0, 0},
    {zenkit::ObjectType::zCCSPoolItem, "zCCSPoolItem", 0, 0},
    {zenkit::ObjectType::zCCSBlock, "zCCSBlock", 0, 0},
    {zenkit::ObjectType::zCCSAtomicBlock, "zCCSAtomicBlock", 0, 0},
    {zenkit::ObjectType::zCCutscene, "zCCutscene:zCCSBlock", 0, 0},
    {zenkit::ObjectType::oCMsgConversation, "oCMsgConversation:oCNpcMessage:zCEventMessage", 0, 0},
    {zenkit::ObjectType::zCDecal, "zCDecal", 0, 0},
    {zenkit::ObjectType::zCMesh, "zCMesh", 0, 0},
    {zenkit::ObjectType::zCProgMeshProto, "zCProgMeshProto", 0, 0},
    {zenkit::ObjectType::zCParticleFX, "zCParticleFX", 0, 0},
    {zenkit::ObjectType::zCAICamera, "zCAICamera", 0, 0},
    {zenkit::ObjectType::zCModel, "zCModel", 0, 0},
    {zenkit::ObjectType::zCMorphMesh, "zCMorphMesh", 0, 0},
};
// the record of the first object of an archive
static void class_record(std::vector<std::byte> const& buf, zenkit::ObjectType type, bool g2) {
	auto rd = zenkit::Read::from(const_cast<std::vector<std::byte>*>(&buf));
	auto r = zenkit::ReadArchive::from(rd.get());
	zenkit::ArchiveObject ob;
	CHECK(r->read_object_begin(ob));
	for (auto& c : CLASSES)
		if (c.type == type) {
			CHECK(ob.class_name == c.name);
			CHECK(ob.version == (g2 ? c.g2 : c.g1));
			return;
		}
	CHECK(!"class without a record");
}
