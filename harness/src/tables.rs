//! Frozen copies of the catalogue boxcars supports (attribute kinds, class
//! parents, spawn kinds), taken when the properties were written.  They are the
//! specification side of the checks; the code under test may know more names.

use crate::model::{Kind, Spawn};

pub static SPAWNS: &[(&str, Spawn)] = &[
    ("Engine.Actor", Spawn::Location),
    ("Engine.ZoneInfo", Spawn::None),
    ("TAGame.BreakOutActor_Platform_TA", Spawn::None),
    ("TAGame.CrowdActor_TA", Spawn::None),
    ("TAGame.CrowdManager_TA", Spawn::None),
    ("TAGame.HauntedBallTrapTrigger_TA", Spawn::None),
    ("TAGame.InMapScoreboard_TA", Spawn::None),
    ("TAGame.PlayerStart_Platform_TA", Spawn::None),
    ("TAGame.RBActor_TA", Spawn::LocationAndRotation),
    ("TAGame.VehiclePickup_Boost_TA", Spawn::None),
    ("TAGame.KeepUpIndicator_TA", Spawn::LocationAndRotation),
];

pub static ATTRS: &[(&str, Kind)] = &[
    ("Engine.Actor:bBlockActors", Kind::Boolean),
    ("Engine.Actor:bCollideActors", Kind::Boolean),
    ("Engine.Actor:bCollideWorld", Kind::Boolean),
    ("Engine.Actor:bHidden", Kind::Boolean),
    ("Engine.Actor:bNetOwner", Kind::Boolean),
    ("Engine.Actor:bTearOff", Kind::Boolean),
    ("Engine.Actor:DrawScale", Kind::Float),
    ("Engine.Actor:RemoteRole", Kind::Enum),
    ("Engine.Actor:Role", Kind::Enum),
    ("Engine.Actor:Rotation", Kind::RotationTag),
    ("Engine.GameReplicationInfo:bMatchIsOver", Kind::Boolean),
    ("Engine.GameReplicationInfo:GameClass", Kind::ActiveActor),
    ("Engine.GameReplicationInfo:ServerName", Kind::String),
    ("Engine.Pawn:bFastAttachedMove", Kind::Boolean),
    ("Engine.Pawn:bIsCrouched", Kind::Boolean),
    ("Engine.Pawn:bUsedByMatinee", Kind::Boolean),
    ("Engine.Pawn:HealthMax", Kind::Int),
    ("Engine.Pawn:PlayerReplicationInfo", Kind::ActiveActor),
    ("Engine.Pawn:RemoteViewPitch", Kind::Byte),
    ("Engine.PlayerReplicationInfo:bAdmin", Kind::Boolean),
    ("Engine.PlayerReplicationInfo:bBot", Kind::Boolean),
    ("Engine.PlayerReplicationInfo:bIsSpectator", Kind::Boolean),
    ("Engine.PlayerReplicationInfo:bReadyToPlay", Kind::Boolean),
    ("Engine.PlayerReplicationInfo:bTimedOut", Kind::Boolean),
    ("Engine.PlayerReplicationInfo:bWaitingPlayer", Kind::Boolean),
    ("Engine.PlayerReplicationInfo:Ping", Kind::Byte),
    ("Engine.PlayerReplicationInfo:PlayerID", Kind::Int),
    ("Engine.PlayerReplicationInfo:PlayerName", Kind::String),
    ("Engine.PlayerReplicationInfo:RemoteUserData", Kind::String),
    ("Engine.PlayerReplicationInfo:Score", Kind::Int),
    ("Engine.PlayerReplicationInfo:Team", Kind::ActiveActor),
    ("Engine.PlayerReplicationInfo:UniqueId", Kind::UniqueId),
    ("Engine.ReplicatedActor_ORS:ReplicatedOwner", Kind::ActiveActor),
    ("Engine.TeamInfo:Score", Kind::Int),
    ("ProjectX.GRI_X:bGameStarted", Kind::Boolean),
    ("ProjectX.GRI_X:GameServerID", Kind::QWordString),
    ("ProjectX.GRI_X:MatchGuid", Kind::String),
    ("ProjectX.GRI_X:MatchGUID", Kind::String),
    ("ProjectX.GRI_X:ReplicatedGameMutatorIndex", Kind::Int),
    ("ProjectX.GRI_X:ReplicatedGamePlaylist", Kind::Int),
    ("ProjectX.GRI_X:ReplicatedServerRegion", Kind::String),
    ("ProjectX.GRI_X:Reservations", Kind::Reservation),
    ("TAGame.Ball_Breakout_TA:AppliedDamage", Kind::AppliedDamage),
    ("TAGame.Ball_Breakout_TA:DamageIndex", Kind::Int),
    ("TAGame.Ball_Breakout_TA:LastTeamTouch", Kind::Byte),
    ("TAGame.Ball_Fire_TA:TeamNumChangeTimestamp", Kind::Float),
    ("TAGame.Ball_God_TA:TargetSpeed", Kind::Float),
    ("TAGame.Ball_Haunted_TA:bIsBallBeamed", Kind::Boolean),
    ("TAGame.Ball_Haunted_TA:DeactivatedGoalIndex", Kind::Byte),
    ("TAGame.Ball_Haunted_TA:LastTeamTouch", Kind::Byte),
    ("TAGame.Ball_Haunted_TA:ReplicatedBeamBrokenValue", Kind::Byte),
    ("TAGame.Ball_Haunted_TA:TotalActiveBeams", Kind::Byte),
    ("TAGame.Ball_Spawner_TA:SpawnDelaySeconds", Kind::Float),
    ("TAGame.Ball_Spawner_TA:SpawnedBall", Kind::ActiveActor),
    ("TAGame.Ball_TA:AdditionalCarGroundBounceScaleXY", Kind::Float),
    ("TAGame.Ball_TA:AdditionalCarGroundBounceScaleZ", Kind::Float),
    ("TAGame.Ball_TA:AirResistance", Kind::Location),
    ("TAGame.Ball_TA:BallHitSpinScale", Kind::Float),
    ("TAGame.Ball_TA:bPossessionEnabled", Kind::Boolean),
    ("TAGame.Ball_TA:bWarnBallReset", Kind::Boolean),
    ("TAGame.Ball_TA:GameBallIndex", Kind::Int),
    ("TAGame.Ball_TA:GameEvent", Kind::ActiveActor),
    ("TAGame.Ball_TA:HitTeamNum", Kind::Byte),
    ("TAGame.Ball_TA:MagnusMinSpeed", Kind::Float),
    ("TAGame.Ball_TA:ReplicatedAddedCarBounceScale", Kind::Float),
    ("TAGame.Ball_TA:ReplicatedBallGravityScale", Kind::Float),
    ("TAGame.Ball_TA:ReplicatedBallMaxLinearSpeedScale", Kind::Float),
    ("TAGame.Ball_TA:ReplicatedBallScale", Kind::Float),
    ("TAGame.Ball_TA:ReplicatedExplosionData", Kind::Explosion),
    ("TAGame.Ball_TA:ReplicatedExplosionDataExtended", Kind::ExtendedExplosion),
    ("TAGame.Ball_TA:ReplicatedPhysMatOverride", Kind::ActiveActor),
    ("TAGame.Ball_TA:ReplicatedWorldBounceScale", Kind::Float),
    ("TAGame.BallKeepUpComponent_TA:BallOwner", Kind::ActiveActor),
    ("TAGame.BallKeepUpComponent_TA:KeepUpState", Kind::Byte),
    ("TAGame.BallKeepUpComponent_TA:Score", Kind::Int),
    ("TAGame.BreakOutActor_Platform_TA:DamageState", Kind::DamageState),
    ("TAGame.CameraSettingsActor_TA:bMouseCameraToggleEnabled", Kind::Boolean),
    ("TAGame.CameraSettingsActor_TA:bUsingBehindView", Kind::Boolean),
    ("TAGame.CameraSettingsActor_TA:bUsingSecondaryCamera", Kind::Boolean),
    ("TAGame.CameraSettingsActor_TA:bUsingSwivel", Kind::Boolean),
    ("TAGame.CameraSettingsActor_TA:CameraPitch", Kind::Byte),
    ("TAGame.CameraSettingsActor_TA:CameraYaw", Kind::Byte),
    ("TAGame.CameraSettingsActor_TA:PRI", Kind::ActiveActor),
    ("TAGame.CameraSettingsActor_TA:ProfileSettings", Kind::CamSettings),
    ("TAGame.Cannon_TA:FireCount", Kind::Byte),
    ("TAGame.Cannon_TA:Pitch", Kind::Float),
    ("TAGame.Car_KnockOut_TA:ReplicatedImpulse", Kind::Impulse),
    ("TAGame.Car_KnockOut_TA:ReplicatedStateChanged", Kind::Byte),
    ("TAGame.Car_KnockOut_TA:ReplicatedStateName", Kind::Int),
    ("TAGame.Car_KnockOut_TA:UsedAttackComponent", Kind::ActiveActor),
    ("TAGame.Car_TA:AddedBallForceMultiplier", Kind::Float),
    ("TAGame.Car_TA:AddedCarForceMultiplier", Kind::Float),
    ("TAGame.Car_TA:AttachedPickup", Kind::ActiveActor),
    ("TAGame.Car_TA:bUnlimitedJumps", Kind::Boolean),
    ("TAGame.Car_TA:bUnlimitedTimeForDodge", Kind::Boolean),
    ("TAGame.Car_TA:ClubColors", Kind::ClubColors),
    ("TAGame.Car_TA:DodgesRefreshedCounter", Kind::Int),
    ("TAGame.Car_TA:ReplicatedCarMaxLinearSpeedScale", Kind::Float),
    ("TAGame.Car_TA:ReplicatedCarScale", Kind::Float),
    ("TAGame.Car_TA:ReplicatedDemolish_CustomFX", Kind::DemolishFx),
    ("TAGame.Car_TA:ReplicatedDemolish", Kind::Demolish),
    ("TAGame.Car_TA:ReplicatedDemolishExtended", Kind::DemolishExtended),
    ("TAGame.Car_TA:ReplicatedDemolishGoalExplosion", Kind::DemolishFx),
    ("TAGame.Car_TA:RumblePickups", Kind::ActiveActor),
    ("TAGame.Car_TA:TeamPaint", Kind::TeamPaint),
    ("TAGame.CarComponent_AirActivate_TA:AirActivateCount", Kind::Int),
    ("TAGame.CarComponent_Boost_TA:bNoBoost", Kind::Boolean),
    ("TAGame.CarComponent_Boost_TA:BoostModifier", Kind::Float),
    ("TAGame.CarComponent_Boost_TA:BoostRestriction", Kind::Byte),
    ("TAGame.CarComponent_Boost_TA:bRechargeGroundOnly", Kind::Boolean),
    ("TAGame.CarComponent_Boost_TA:bUnlimitedBoost", Kind::Boolean),
    ("TAGame.CarComponent_Boost_TA:RechargeDelay", Kind::Float),
    ("TAGame.CarComponent_Boost_TA:RechargeRate", Kind::Float),
    ("TAGame.CarComponent_Boost_TA:ReplicatedBoost", Kind::ReplicatedBoost),
    ("TAGame.CarComponent_Boost_TA:ReplicatedBoostAmount", Kind::Byte),
    ("TAGame.CarComponent_Boost_TA:UnlimitedBoostRefCount", Kind::Int),
    ("TAGame.CarComponent_Dodge_KO_TA:DodgeRotationCompressed", Kind::Int),
    ("TAGame.CarComponent_Dodge_TA:DodgeImpulse", Kind::Location),
    ("TAGame.CarComponent_Dodge_TA:DodgeTorque", Kind::Location),
    ("TAGame.CarComponent_DoubleJump_TA:DoubleJumpImpulse", Kind::Location),
    ("TAGame.CarComponent_FlipCar_TA:bFlipRight", Kind::Boolean),
    ("TAGame.CarComponent_FlipCar_TA:FlipCarTime", Kind::Float),
    ("TAGame.CarComponent_TA:ReplicatedActive", Kind::Byte),
    ("TAGame.CarComponent_TA:ReplicatedActivityTime", Kind::Float),
    ("TAGame.CarComponent_TA:Vehicle", Kind::ActiveActor),
    ("TAGame.CarComponent_Torque_TA:ReplicatedTorqueInput", Kind::Int),
    ("TAGame.CarComponent_Torque_TA:TorqueScale", Kind::Float),
    ("TAGame.CrowdActor_TA:GameEvent", Kind::ActiveActor),
    ("TAGame.CrowdActor_TA:ModifiedNoise", Kind::Float),
    ("TAGame.CrowdActor_TA:ReplicatedCountDownNumber", Kind::Int),
    ("TAGame.CrowdActor_TA:ReplicatedOneShotSound", Kind::ActiveActor),
    ("TAGame.CrowdActor_TA:ReplicatedRoundCountDownNumber", Kind::Int),
    ("TAGame.CrowdManager_TA:GameEvent", Kind::ActiveActor),
    ("TAGame.CrowdManager_TA:ReplicatedGlobalOneShotSound", Kind::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:bAllowHonorDuels", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bBallHasBeenHit", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bClubMatch", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bDisableCrowdSound", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bFullClubMatch", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bFullMatchWinnerDecided", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bGoalsEnabled", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bMatchCreatorAdminEnabled", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bMatchEnded", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bNoContest", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bOverTime", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bReadyToStartGame", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bShouldSpawnGoalIndicators", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bShowIntroScene", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bUnlimitedTime", Kind::Boolean),
    ("TAGame.GameEvent_Soccar_TA:GameTime", Kind::Int),
    ("TAGame.GameEvent_Soccar_TA:GameWinner", Kind::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:MatchWinner", Kind::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:MaxScore", Kind::Int),
    ("TAGame.GameEvent_Soccar_TA:MVP", Kind::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedMusicStinger", Kind::MusicStinger),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedScoredOnTeam", Kind::Byte),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedServerPerformanceState", Kind::Byte),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedStatEvent", Kind::StatEvent),
    ("TAGame.GameEvent_Soccar_TA:RoundNum", Kind::Int),
    ("TAGame.GameEvent_Soccar_TA:SecondsRemaining", Kind::Int),
    ("TAGame.GameEvent_Soccar_TA:SeriesLength", Kind::Int),
    ("TAGame.GameEvent_Soccar_TA:SubRulesArchetype", Kind::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:TotalGameBalls", Kind::Int),
    ("TAGame.GameEvent_SoccarPrivate_TA:MatchSettings", Kind::PrivateMatchSettings),
    ("TAGame.GameEvent_TA:bAllowReadyUp", Kind::Boolean),
    ("TAGame.GameEvent_TA:bAlwaysShowMatchTypeLabel", Kind::Boolean),
    ("TAGame.GameEvent_TA:bCanVoteToForfeit", Kind::Boolean),
    ("TAGame.GameEvent_TA:bHasLeaveMatchPenalty", Kind::Boolean),
    ("TAGame.GameEvent_TA:bIsBotMatch", Kind::Boolean),
    ("TAGame.GameEvent_TA:BotSkill", Kind::Int),
    ("TAGame.GameEvent_TA:GameMode", Kind::GameMode),
    ("TAGame.GameEvent_TA:MatchStartEpoch", Kind::Int64),
    ("TAGame.GameEvent_TA:MatchTypeClass", Kind::ActiveActor),
    ("TAGame.GameEvent_TA:ReplicatedGameStateTimeRemaining", Kind::Int),
    ("TAGame.GameEvent_TA:ReplicatedRoundCountDownNumber", Kind::Int),
    ("TAGame.GameEvent_TA:ReplicatedStateIndex", Kind::Byte),
    ("TAGame.GameEvent_TA:ReplicatedStateName", Kind::Int),
    ("TAGame.GameEvent_TA:RichPresenceString", Kind::String),
    ("TAGame.GameEvent_Team_TA:bDisableMutingOtherTeam", Kind::Boolean),
    ("TAGame.GameEvent_Team_TA:bDisableQuickChat", Kind::Boolean),
    ("TAGame.GameEvent_Team_TA:bForfeit", Kind::Boolean),
    ("TAGame.GameEvent_Team_TA:MaxTeamSize", Kind::Int),
    ("TAGame.GRI_TA:bAllowTargetFind", Kind::Boolean),
    ("TAGame.GRI_TA:LanMatchGUID", Kind::String),
    ("TAGame.GRI_TA:NewDedicatedServerIP", Kind::String),
    ("TAGame.KeepUpIndicator_TA:ComponentOwner", Kind::ActiveActor),
    ("TAGame.MaxTimeWarningData_TA:EndGameEpochTime", Kind::Int64),
    ("TAGame.MaxTimeWarningData_TA:EndGameWarningEpochTime", Kind::Int64),
    ("TAGame.PickupTimer_TA:MaxTimeTillItem", Kind::Int),
    ("TAGame.PickupTimer_TA:TimeTillItem", Kind::Int),
    ("TAGame.PlayerStart_Platform_TA:bActive", Kind::Boolean),
    ("TAGame.PRI_KnockOut_TA:bIsActiveMVP", Kind::Boolean),
    ("TAGame.PRI_KnockOut_TA:bIsEliminated", Kind::Boolean),
    ("TAGame.PRI_KnockOut_TA:Blocks", Kind::Int),
    ("TAGame.PRI_KnockOut_TA:DamageCaused", Kind::Int),
    ("TAGame.PRI_KnockOut_TA:EliminationOrder", Kind::Int),
    ("TAGame.PRI_KnockOut_TA:Grabs", Kind::Int),
    ("TAGame.PRI_KnockOut_TA:Hits", Kind::Int),
    ("TAGame.PRI_KnockOut_TA:KnockoutDeaths", Kind::Int),
    ("TAGame.PRI_KnockOut_TA:Knockouts", Kind::Int),
    ("TAGame.PRI_TA:AnonymizedName", Kind::String),
    ("TAGame.PRI_TA:bAnonymizeToOpponents", Kind::Boolean),
    ("TAGame.PRI_TA:bAnonymizeToTeammates", Kind::Boolean),
    ("TAGame.PRI_TA:bIdleBanned", Kind::Boolean),
    ("TAGame.PRI_TA:bIsDistracted", Kind::Boolean),
    ("TAGame.PRI_TA:bIsInSplitScreen", Kind::Boolean),
    ("TAGame.PRI_TA:bMatchMVP", Kind::Boolean),
    ("TAGame.PRI_TA:bOnlineLoadoutSet", Kind::Boolean),
    ("TAGame.PRI_TA:bOnlineLoadoutsSet", Kind::Boolean),
    ("TAGame.PRI_TA:BotBannerProductID", Kind::Int),
    ("TAGame.PRI_TA:BotProductName", Kind::Int),
    ("TAGame.PRI_TA:bReady", Kind::Boolean),
    ("TAGame.PRI_TA:bReceivedAnonymizationSettings", Kind::Boolean),
    ("TAGame.PRI_TA:bUsingBehindView", Kind::Boolean),
    ("TAGame.PRI_TA:bUsingItems", Kind::Boolean),
    ("TAGame.PRI_TA:bUsingSecondaryCamera", Kind::Boolean),
    ("TAGame.PRI_TA:CameraPitch", Kind::Byte),
    ("TAGame.PRI_TA:CameraSettings", Kind::CamSettings),
    ("TAGame.PRI_TA:CameraYaw", Kind::Byte),
    ("TAGame.PRI_TA:CarDemolitions", Kind::Int),
    ("TAGame.PRI_TA:ClientLoadout", Kind::Loadout),
    ("TAGame.PRI_TA:ClientLoadoutOnline", Kind::LoadoutOnline),
    ("TAGame.PRI_TA:ClientLoadouts", Kind::TeamLoadout),
    ("TAGame.PRI_TA:ClientLoadoutsOnline", Kind::LoadoutsOnline),
    ("TAGame.PRI_TA:ClubID", Kind::Int64),
    ("TAGame.PRI_TA:CurrentVoiceRoom", Kind::String),
    ("TAGame.PRI_TA:EpicPUID", Kind::String),
    ("TAGame.PRI_TA:KeepUpPossessions", Kind::Int),
    ("TAGame.PRI_TA:MatchAssists", Kind::Int),
    ("TAGame.PRI_TA:MatchBreakoutDamage", Kind::Int),
    ("TAGame.PRI_TA:MatchDemolishes", Kind::Int),
    ("TAGame.PRI_TA:MatchGoals", Kind::Int),
    ("TAGame.PRI_TA:MatchSaves", Kind::Int),
    ("TAGame.PRI_TA:MatchScore", Kind::Int),
    ("TAGame.PRI_TA:MatchShots", Kind::Int),
    ("TAGame.PRI_TA:MaxTimeTillItem", Kind::Int),
    ("TAGame.PRI_TA:PartyLeader", Kind::PartyLeader),
    ("TAGame.PRI_TA:PawnType", Kind::Byte),
    ("TAGame.PRI_TA:PersistentCamera", Kind::ActiveActor),
    ("TAGame.PRI_TA:PlayerHistoryKey", Kind::PlayerHistoryKey),
    ("TAGame.PRI_TA:PlayerHistoryValid", Kind::Boolean),
    ("TAGame.PRI_TA:PossessionClears", Kind::Int),
    ("TAGame.PRI_TA:PossessionDenials", Kind::Int),
    ("TAGame.PRI_TA:PossessionSteals", Kind::Int),
    ("TAGame.PRI_TA:PrimaryTitle", Kind::Title),
    ("TAGame.PRI_TA:ReplicatedGameEvent", Kind::ActiveActor),
    ("TAGame.PRI_TA:ReplicatedWorstNetQualityBeyondLatency", Kind::Byte),
    ("TAGame.PRI_TA:RepStatTitles", Kind::RepStatTitle),
    ("TAGame.PRI_TA:SecondaryTitle", Kind::Title),
    ("TAGame.PRI_TA:SelfDemolitions", Kind::Int),
    ("TAGame.PRI_TA:SkillTier", Kind::FlaggedByte),
    ("TAGame.PRI_TA:SpectatorShortcut", Kind::Int),
    ("TAGame.PRI_TA:SteeringSensitivity", Kind::Float),
    ("TAGame.PRI_TA:TimeTillItem", Kind::Int),
    ("TAGame.PRI_TA:Title", Kind::Int),
    ("TAGame.PRI_TA:TotalGameTimePlayed", Kind::Float),
    ("TAGame.PRI_TA:TotalIdleTime", Kind::Float),
    ("TAGame.PRI_TA:TotalXP", Kind::Int),
    ("TAGame.PRI_TA:ViralItemActor", Kind::ActiveActor),
    ("TAGame.RBActor_TA:bFrozen", Kind::Boolean),
    ("TAGame.RBActor_TA:bIgnoreSyncing", Kind::Boolean),
    ("TAGame.RBActor_TA:bReplayActor", Kind::Boolean),
    ("TAGame.RBActor_TA:ReplicatedRBState", Kind::RigidBody),
    ("TAGame.RBActor_TA:TeleportCounter", Kind::Byte),
    ("TAGame.RBActor_TA:WeldedInfo", Kind::Welded),
    ("TAGame.RumblePickups_TA:AttachedPickup", Kind::ActiveActor),
    ("TAGame.RumblePickups_TA:ConcurrentItemCount", Kind::Int),
    ("TAGame.RumblePickups_TA:PickupInfo", Kind::PickupInfo),
    ("TAGame.SpecialPickup_BallFreeze_TA:RepOrigSpeed", Kind::Float),
    ("TAGame.SpecialPickup_BallVelcro_TA:AttachTime", Kind::Float),
    ("TAGame.SpecialPickup_BallVelcro_TA:bBroken", Kind::Boolean),
    ("TAGame.SpecialPickup_BallVelcro_TA:bHit", Kind::Boolean),
    ("TAGame.SpecialPickup_BallVelcro_TA:BreakTime", Kind::Float),
    ("TAGame.SpecialPickup_Football_TA:WeldedBall", Kind::ActiveActor),
    ("TAGame.SpecialPickup_Rugby_TA:bBallWelded", Kind::Boolean),
    ("TAGame.SpecialPickup_Targeted_TA:Targeted", Kind::ActiveActor),
    ("TAGame.Stunlock_TA:Car", Kind::ActiveActor),
    ("TAGame.Stunlock_TA:MashTime", Kind::Float),
    ("TAGame.Stunlock_TA:MaxStunTime", Kind::Float),
    ("TAGame.Stunlock_TA:StunTimeRemaining", Kind::Float),
    ("TAGame.Team_Soccar_TA:GameScore", Kind::Int),
    ("TAGame.Team_TA:ClubColors", Kind::ClubColors),
    ("TAGame.Team_TA:ClubID", Kind::Int64),
    ("TAGame.Team_TA:CustomTeamName", Kind::String),
    ("TAGame.Team_TA:Difficulty", Kind::Int),
    ("TAGame.Team_TA:GameEvent", Kind::ActiveActor),
    ("TAGame.Team_TA:LogoData", Kind::LogoData),
    ("TAGame.Vehicle_TA:bDriving", Kind::Boolean),
    ("TAGame.Vehicle_TA:bHasPostMatchCelebration", Kind::Boolean),
    ("TAGame.Vehicle_TA:bPodiumMode", Kind::Boolean),
    ("TAGame.Vehicle_TA:bReplicatedHandbrake", Kind::Boolean),
    ("TAGame.Vehicle_TA:InputRestriction", Kind::Byte),
    ("TAGame.Vehicle_TA:ReplicatedSteer", Kind::Byte),
    ("TAGame.Vehicle_TA:ReplicatedThrottle", Kind::Byte),
    ("TAGame.VehiclePickup_TA:bNoPickup", Kind::Boolean),
    ("TAGame.VehiclePickup_TA:NewReplicatedPickupData", Kind::PickupNew),
    ("TAGame.VehiclePickup_TA:ReplicatedPickupData", Kind::Pickup),
    ("TAGame.ViralItemActor_TA:ClientFXInfectedType", Kind::Byte),
    ("TAGame.ViralItemActor_TA:InfectedStatus", Kind::Byte),
];

pub static PARENTS: &[(&str, &str)] = &[
    ("Archetypes.Ball.Ball_Anniversary", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_BasketBall_Mutator", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Basketball", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_BasketBall", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Beachball", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Breakout", "TAGame.Ball_Breakout_TA"),
    ("Archetypes.Ball.Ball_Default", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Ekin", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Fire_Obstacle", "TAGame.Ball_Fire_TA"),
    ("Archetypes.Ball.Ball_Fire", "TAGame.Ball_Fire_TA"),
    ("Archetypes.Ball.Ball_Football", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_God", "TAGame.Ball_God_TA"),
    ("Archetypes.Ball.Ball_Haunted", "TAGame.Ball_Haunted_TA"),
    ("Archetypes.Ball.ball_luminousairplane", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_PizzaPuck", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Puck", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_RingSpawner", "TAGame.Ball_Spawner_TA"),
    ("Archetypes.Ball.Ball_Score", "TAGame.Ball_Breakout_TA"),
    ("Archetypes.Ball.Ball_Shoe", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_SpookyBalloon", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Strike", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Training", "TAGame.Ball_Tutorial_TA"),
    ("Archetypes.Ball.Ball_Trajectory", "TAGame.Ball_Trajectory_TA"),
    ("Archetypes.Ball.Ball_Tutorial", "TAGame.Ball_Tutorial_TA"),
    ("Archetypes.Ball.Ball_WorldCup", "TAGame.Ball_TA"),
    ("Archetypes.Ball.BallComponent_KeepUp", "TAGame.BallKeepUpComponent_TA"),
    ("Archetypes.Ball.CubeBall", "TAGame.Ball_TA"),
    ("Archetypes.Car.Car_Default", "TAGame.Car_TA"),
    ("Archetypes.Car.Car_PostGameLobby", "TAGame.Car_Freeplay_TA"),
    ("Archetypes.CarComponents.CarComponent_Boost", "TAGame.CarComponent_Boost_TA"),
    ("Archetypes.CarComponents.CarComponent_Dodge", "TAGame.CarComponent_Dodge_TA"),
    ("Archetypes.CarComponents.CarComponent_DoubleJump", "TAGame.CarComponent_DoubleJump_TA"),
    ("Archetypes.CarComponents.CarComponent_FlipCar", "TAGame.CarComponent_FlipCar_TA"),
    ("Archetypes.CarComponents.CarComponent_Jump", "TAGame.CarComponent_Jump_TA"),
    ("Archetypes.CarComponents.CarComponent_TerritoryDemolish", "TAGame.CarComponent_TerritoryDemolish_TA"),
    ("Archetypes.GameEvent.GameEvent_Basketball", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_BasketballPrivate", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("Archetypes.GameEvent.GameEvent_BasketballSplitscreen", "TAGame.GameEvent_SoccarSplitscreen_TA"),
    ("Archetypes.GameEvent.GameEvent_Breakout", "TAGame.GameEvent_Breakout_TA"),
    ("Archetypes.GameEvent.GameEvent_FTE_Part1_Prime", "TAGame.GameEvent_FTE_TA"),
    ("Archetypes.GameEvent.GameEvent_Hockey", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_HockeyPrivate", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("Archetypes.GameEvent.GameEvent_HockeySplitscreen", "TAGame.GameEvent_SoccarSplitscreen_TA"),
    ("Archetypes.GameEvent.GameEvent_Items", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_Season:CarArchetype", "TAGame.Car_Season_TA"),
    ("Archetypes.GameEvent.GameEvent_Season", "TAGame.GameEvent_Season_TA"),
    ("Archetypes.GameEvent.GameEvent_Soccar", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_SoccarLan", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_SoccarPrivate", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("Archetypes.GameEvent.GameEvent_SoccarSplitscreen", "TAGame.GameEvent_SoccarSplitscreen_TA"),
    ("Archetypes.GameEvent.GameEvent_Tutorial_Advanced", "TAGame.GameEvent_Tutorial_Advanced_TA"),
    ("Archetypes.GameEvent.GameEvent_Tutorial_Basic", "TAGame.GameEvent_Tutorial_Basic_TA"),
    ("Archetypes.GameEvent.GameEvent_Tutorial_FreePlay", "TAGame.GameEvent_Tutorial_FreePlay_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Boost", "TAGame.CarComponent_Boost_KO_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Dodge", "TAGame.CarComponent_Dodge_KO_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.DoubleJump", "TAGame.CarComponent_DoubleJump_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Flip", "TAGame.CarComponent_FlipCar_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Jump", "TAGame.CarComponent_Jump_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.StunlockArchetype", "TAGame.Stunlock_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Torque", "TAGame.CarComponent_Torque_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype", "TAGame.Car_KnockOut_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout", "TAGame.GameEvent_KnockOut_TA"),
    ("Archetypes.Misc.KeepUpIndicator", "TAGame.KeepUpIndicator_TA"),
    ("Archetypes.Mutators.Mutator_Robin:AutoFlip", "TAGame.CarComponent_FlipCar_TA"),
    ("Archetypes.Mutators.Mutator_Robin:DoubleJump", "TAGame.CarComponent_DoubleJump_Robin_TA"),
    ("Archetypes.Mutators.Mutator_Robin:Jump", "TAGame.CarComponent_Jump_Robin_TA"),
    ("Archetypes.Mutators.SubRules.ItemsMode_RPS:DispenserArchetype.ItemPool.Obj_1", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.Mutators.SubRules.ItemsMode_RPS:DispenserArchetype.ItemPool.Obj_2", "TAGame.SpecialPickup_BallFreeze_TA"),
    ("Archetypes.Mutators.SubRules.ItemsMode_RPS:DispenserArchetype.ItemPool.Obj", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.SpecialPickups.BM.SpecialPickup_BallFreeze_BM", "TAGame.SpecialPickup_BallFreeze_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallFreeze", "TAGame.SpecialPickup_BallFreeze_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallGrapplingHook", "TAGame.SpecialPickup_GrapplingHook_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallLasso", "TAGame.SpecialPickup_BallLasso_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallSpring", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallVelcro", "TAGame.SpecialPickup_BallVelcro_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Batarang", "TAGame.SpecialPickup_Batarang_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BoostOverride", "TAGame.SpecialPickup_BoostOverride_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_CarSpring", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Football", "TAGame.SpecialPickup_Football_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_GravityWell", "TAGame.SpecialPickup_BallGravity_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_HauntedBallBeam", "TAGame.SpecialPickup_HauntedBallBeam_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Rugby", "TAGame.SpecialPickup_Rugby_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_RugbyLightDark", "TAGame.SpecialPickup_Rugby_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_StrongHit", "TAGame.SpecialPickup_HitForce_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Swapper", "TAGame.SpecialPickup_Swapper_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Tornado", "TAGame.SpecialPickup_Tornado_TA"),
    ("Archetypes.Teams.Team0", "TAGame.Team_Soccar_TA"),
    ("Archetypes.Teams.Team1", "TAGame.Team_Soccar_TA"),
    ("Archetypes.Teams.TeamWhite0", "TAGame.Team_Freeplay_TA"),
    ("Archetypes.Teams.TeamWhite1", "TAGame.Team_Freeplay_TA"),
    ("Archetypes.Tutorial.Cannon", "TAGame.Cannon_TA"),
    ("Engine.Actor", "Core.Object"),
    ("Engine.GameReplicationInfo", "Engine.ReplicationInfo"),
    ("Engine.Info", "Engine.Actor"),
    ("Engine.NavigationPoint", "Engine.Actor"),
    ("Engine.Pawn", "Engine.Actor"),
    ("Engine.PlayerReplicationInfo", "Engine.ReplicationInfo"),
    ("Engine.PlayerStart", "Engine.NavigationPoint"),
    ("Engine.ReplicatedActor_ORS", "Engine.Actor"),
    ("Engine.ReplicationInfo", "Engine.Info"),
    ("Engine.TeamInfo", "Engine.Info"),
    ("Engine.WorldInfo", "Engine.ZoneInfo"),
    ("Engine.ZoneInfo", "Engine.Info"),
    ("GameInfo_Basketball.GameInfo.GameInfo_Basketball:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_Basketball.GameInfo.GameInfo_Basketball:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Breakout.GameInfo.GameInfo_Breakout:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_FootBall.GameInfo.GameInfo_FootBall:Archetype", "TAGame.GameEvent_Football_TA"),
    ("GameInfo_FootBall.GameInfo.GameInfo_FootBall:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_FTE.GameInfo.GameInfo_FTE:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("gameinfo_godball.GameInfo.gameinfo_godball:Archetype", "TAGame.GameEvent_GodBall_TA"),
    ("GameInfo_GodBall.GameInfo.GameInfo_GodBall:Archetype", "TAGame.GameEvent_GodBall_TA"),
    ("gameinfo_godball.GameInfo.gameinfo_godball:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_GodBall.GameInfo.GameInfo_GodBall:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_HeatseekerTerritory.GameInfo.GameInfo_HeatseekerTerritory:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_HeatseekerTerritory.GameInfo.GameInfo_HeatseekerTerritory:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("Gameinfo_Hockey.GameInfo.Gameinfo_Hockey:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("Gameinfo_Hockey.GameInfo.Gameinfo_Hockey:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Hops.GameInfo.GameInfo_Hops:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_Hops.GameInfo.GameInfo_Hops:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Items.GameInfo.GameInfo_Items:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_KnockOut.KnockOut.GameInfo_KnockOut:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_AprilFool.GameInfo.GameInfo_LTM_AprilFool:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_AprilFool.GameInfo.GameInfo_LTM_AprilFool:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_BeachBall.GameInfo.GameInfo_LTM_BeachBall:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_BeachBall.GameInfo.GameInfo_LTM_BeachBall:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_DropshotRumble.GameInfo.GameInfo_LTM_DropshotRumble:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_DropshotRumble.GameInfo.GameInfo_LTM_DropshotRumble:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_SpeedDemon.GameInfo.GameInfo_LTM_SpeedDemon:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_SpeedDemon.GameInfo.GameInfo_LTM_SpeedDemon:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_SpikeRush.GameInfo.GameInfo_LTM_SpikeRush:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_SpikeRush.GameInfo.GameInfo_LTM_SpikeRush:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_SuperCube.GameInfo.GameInfo_LTM_SuperCube:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_SuperCube.GameInfo.GameInfo_LTM_SuperCube:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_MagnusFutball.GameInfo.GameInfo_MagnusFutball:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_MagnusFutball.GameInfo.GameInfo_MagnusFutball:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Possession.GameInfo.GameInfo_Possession:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_Possession.GameInfo.GameInfo_Possession:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Season.GameInfo.GameInfo_Season:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_SnowDayTerritory.GameInfo.GameInfo_SnowDayTerritory:Archetype", "TAGame.GameEvent_Territory_TA"),
    ("GameInfo_SnowDayTerritory.GameInfo.GameInfo_SnowDayTerritory:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Soccar.GameInfo.GameInfo_Soccar:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_SpikeDrop.GameInfo.GameInfo_SpikeDrop:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_SpikeDrop.GameInfo.GameInfo_SpikeDrop:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Territory.GameInfo.GameInfo_Territory:Archetype", "TAGame.GameEvent_Territory_TA"),
    ("GameInfo_Territory.GameInfo.GameInfo_Territory:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Tutorial.GameEvent.GameEvent_Tutorial_Aerial", "TAGame.GameEvent_Training_Aerial_TA"),
    ("GameInfo_Tutorial.GameEvent.GameEvent_Tutorial_Goalie", "TAGame.GameEvent_Training_Goalie_TA"),
    ("GameInfo_Tutorial.GameEvent.GameEvent_Tutorial_Striker", "TAGame.GameEvent_Training_Striker_TA"),
    ("GameInfo_Tutorial.GameInfo.GameInfo_Tutorial:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("Haunted_TrainStation_P.TheWorld:PersistentLevel.HauntedBallTrapTrigger_TA_0", "TAGame.HauntedBallTrapTrigger_TA"),
    ("Haunted_TrainStation_P.TheWorld:PersistentLevel.HauntedBallTrapTrigger_TA_1", "TAGame.HauntedBallTrapTrigger_TA"),
    ("Mutators.Mutators.Mutators.FreePlay:CarArchetype", "TAGame.Car_Freeplay_TA"),
    ("Mutators.Mutators.Mutators.OnlineFreeplay:CarArchetype", "TAGame.Car_Freeplay_TA"),
    ("ProjectX.Default__NetModeReplicator_X", "ProjectX.NetModeReplicator_X"),
    ("ProjectX.GRI_X", "Engine.GameReplicationInfo"),
    ("ProjectX.NetModeReplicator_X", "Engine.ReplicationInfo"),
    ("ProjectX.Pawn_X", "Engine.Pawn"),
    ("ProjectX.PRI_X", "Engine.PlayerReplicationInfo"),
    ("TAGame.Ball_Breakout_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Fire_TA", "TAGame.Ball_God_TA"),
    ("TAGame.Ball_God_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Haunted_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Spawner_TA", "Engine.Actor"),
    ("TAGame.Ball_TA", "TAGame.RBActor_TA"),
    ("TAGame.Ball_Trajectory_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Tutorial_TA", "TAGame.Ball_TA"),
    ("TAGame.BallKeepUpComponent_TA", "Engine.ReplicatedActor_ORS"),
    ("TAGame.BreakOutActor_Platform_TA", "Engine.Actor"),
    ("TAGame.CameraSettingsActor_TA", "Engine.ReplicationInfo"),
    ("TAGame.Cannon_TA", "Engine.Actor"),
    ("TAGame.Car_Freeplay_TA", "TAGame.Car_TA"),
    ("TAGame.Car_KnockOut_TA", "TAGame.Car_TA"),
    ("TAGame.Car_Season_TA", "TAGame.Car_TA"),
    ("TAGame.Car_TA", "TAGame.Vehicle_TA"),
    ("TAGame.CarComponent_AirActivate_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_Boost_KO_TA", "TAGame.CarComponent_Boost_TA"),
    ("TAGame.CarComponent_Boost_TA", "TAGame.CarComponent_AirActivate_TA"),
    ("TAGame.CarComponent_Dodge_KO_TA", "TAGame.CarComponent_Dodge_TA"),
    ("TAGame.CarComponent_Dodge_TA", "TAGame.CarComponent_AirActivate_TA"),
    ("TAGame.CarComponent_DoubleJump_KO_TA", "TAGame.CarComponent_DoubleJump_TA"),
    ("TAGame.CarComponent_DoubleJump_Robin_TA", "TAGame.CarComponent_DoubleJump_TA"),
    ("TAGame.CarComponent_DoubleJump_TA", "TAGame.CarComponent_AirActivate_TA"),
    ("TAGame.CarComponent_FlipCar_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_Jump_Robin_TA", "TAGame.CarComponent_Jump_TA"),
    ("TAGame.CarComponent_Jump_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_TA", "Engine.ReplicationInfo"),
    ("TAGame.CarComponent_TerritoryDemolish_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_Torque_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CrowdActor_TA", "Engine.ReplicationInfo"),
    ("TAGame.CrowdManager_TA", "Engine.ReplicationInfo"),
    ("TAGame.Default__CameraSettingsActor_TA", "TAGame.CameraSettingsActor_TA"),
    ("TAGame.Default__Car_TA", "TAGame.Car_TA"),
    ("TAGame.Default__FreeplayCommands_TA", "TAGame.FreeplayCommands_TA"),
    ("TAGame.Default__MaxTimeWarningData_TA", "TAGame.MaxTimeWarningData_TA"),
    ("TAGame.Default__PickupTimer_TA", "TAGame.PickupTimer_TA"),
    ("TAGame.Default__PRI_Breakout_TA", "TAGame.PRI_Breakout_TA"),
    ("TAGame.Default__PRI_KnockOut_TA", "TAGame.PRI_KnockOut_TA"),
    ("TAGame.Default__PRI_Possession_TA", "TAGame.PRI_Possession_TA"),
    ("TAGame.Default__PRI_TA", "TAGame.PRI_TA"),
    ("TAGame.Default__RumblePickups_TA", "TAGame.RumblePickups_TA"),
    ("TAGame.Default__TrackerWallDynamicMeshActor_TA", "TAGame.TrackerWallDynamicMeshActor_TA"),
    ("TAGame.Default__ViralItemActor_TA", "TAGame.ViralItemActor_TA"),
    ("TAGame.Default__VoteActor_TA", "TAGame.VoteActor_TA"),
    ("TAGame.DynamicMeshActor_TA", "Engine.Actor"),
    ("TAGame.FreeplayCommands_TA", "Engine.Actor"),
    ("TAGame.GameEvent_Breakout_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_Football_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_FTE_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_GodBall_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_KnockOut_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_Season_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_Soccar_TA", "TAGame.GameEvent_Team_TA"),
    ("TAGame.GameEvent_SoccarPrivate_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_SoccarSplitscreen_TA", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("TAGame.GameEvent_TA", "Engine.ReplicationInfo"),
    ("TAGame.GameEvent_Team_TA", "TAGame.GameEvent_TA"),
    ("TAGame.GameEvent_Territory_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_Training_Aerial_TA", "TAGame.GameEvent_Training_TA"),
    ("TAGame.GameEvent_Training_Goalie_TA", "TAGame.GameEvent_Training_TA"),
    ("TAGame.GameEvent_Training_Striker_TA", "TAGame.GameEvent_Training_TA"),
    ("TAGame.GameEvent_Training_TA", "TAGame.GameEvent_Tutorial_TA"),
    ("TAGame.GameEvent_Tutorial_Advanced_TA", "TAGame.GameEvent_Tutorial_Basic_TA"),
    ("TAGame.GameEvent_Tutorial_Basic_TA", "TAGame.GameEvent_Tutorial_TA"),
    ("TAGame.GameEvent_Tutorial_FreePlay_TA", "TAGame.GameEvent_Tutorial_TA"),
    ("TAGame.GameEvent_Tutorial_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GRI_TA", "ProjectX.GRI_X"),
    ("TAGame.HauntedBallTrapTrigger_TA", "TAGame.DynamicMeshActor_TA"),
    ("TAGame.InMapScoreboard_TA", "Engine.Actor"),
    ("TAGame.KeepUpIndicator_TA", "Engine.Actor"),
    ("TAGame.MaxTimeWarningData_TA", "Engine.ReplicatedActor_ORS"),
    ("TAGame.PickupTimer_TA", "TAGame.CarComponent_TA"),
    ("TAGame.PlayerStart_Platform_TA", "Engine.Actor"),
    ("TAGame.PRI_Breakout_TA", "TAGame.PRI_TA"),
    ("TAGame.PRI_KnockOut_TA", "TAGame.PRI_TA"),
    ("TAGame.PRI_Possession_TA", "TAGame.PRI_TA"),
    ("TAGame.PRI_TA", "ProjectX.PRI_X"),
    ("TAGame.ProductAttribute_Blueprint_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_BlueprintCost_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_Certified_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_NoNotify_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_Painted_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_Quality_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_SpecialEdition_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_TA", "Core.Object"),
    ("TAGame.ProductAttribute_TeamEdition_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_TitleID_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_UserColor_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.RBActor_TA", "ProjectX.Pawn_X"),
    ("TAGame.Replay_Soccar_TA", "TAGame.Replay_TA"),
    ("TAGame.Replay_TA", "Core.Object"),
    ("TAGame.RumblePickups_TA", "Engine.Actor"),
    ("TAGame.SaveData_GameEditor_Training_TA", "Core.Object"),
    ("TAGame.SpecialPickup_BallCarSpring_TA", "TAGame.SpecialPickup_Spring_TA"),
    ("TAGame.SpecialPickup_BallFreeze_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_BallGravity_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_BallLasso_TA", "TAGame.SpecialPickup_Spring_TA"),
    ("TAGame.SpecialPickup_BallVelcro_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Batarang_TA", "TAGame.SpecialPickup_BallLasso_TA"),
    ("TAGame.SpecialPickup_BoostOverride_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_Football_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_GrapplingHook_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_HauntedBallBeam_TA", "TAGame.SpecialPickup_BallGravity_TA"),
    ("TAGame.SpecialPickup_HitForce_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Rugby_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Spring_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_Swapper_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_TA", "TAGame.CarComponent_TA"),
    ("TAGame.SpecialPickup_Targeted_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Tornado_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.Stunlock_TA", "Engine.Actor"),
    ("TAGame.Team_Freeplay_TA", "TAGame.Team_Soccar_TA"),
    ("TAGame.Team_Soccar_TA", "TAGame.Team_TA"),
    ("TAGame.Team_TA", "Engine.TeamInfo"),
    ("TAGame.TrackerWallDynamicMeshActor_TA", "TAGame.DynamicMeshActor_TA"),
    ("TAGame.TrainingEditorData_TA", "Core.Object"),
    ("TAGame.Vehicle_TA", "TAGame.RBActor_TA"),
    ("TAGame.VehiclePickup_Boost_TA", "TAGame.VehiclePickup_TA"),
    ("TAGame.VehiclePickup_TA", "Engine.ReplicationInfo"),
    ("TAGame.ViralItemActor_TA", "Engine.Actor"),
    ("TheWorld:PersistentLevel.BreakOutActor_Platform_TA", "TAGame.BreakOutActor_Platform_TA"),
    ("TheWorld:PersistentLevel.CrowdActor_TA", "TAGame.CrowdActor_TA"),
    ("TheWorld:PersistentLevel.CrowdManager_TA", "TAGame.CrowdManager_TA"),
    ("TheWorld:PersistentLevel.InMapScoreboard_TA", "TAGame.InMapScoreboard_TA"),
    ("TheWorld:PersistentLevel.PlayerStart_Platform_TA", "TAGame.PlayerStart_Platform_TA"),
    ("TheWorld:PersistentLevel.VehiclePickup_Boost_TA", "TAGame.VehiclePickup_Boost_TA"),
];
