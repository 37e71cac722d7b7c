"""Writes properties.jsonl (kept as a script so that the long strings stay editable)."""
import json, os
S='ama_xiv_combat_sim/simulator/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=[observe]
    if state: d['anchors']['state']=[dict(name=state,meaning=state,where=files[0])]
    assert len(title)<=80,(id,len(title))
    P.append(d)
RB=S+'timeline_builders/rotation_builder.py'; DB=S+'timeline_builders/damage_builder.py'; SA=S+'timeline_builders/snapshot_and_application_events.py'
SE=S+'trackers/status_effect_tracker.py'; CT=S+'trackers/combo_tracker.py'; JR=S+'trackers/job_resource_tracker.py'; CH=S+'trackers/channeling_tracker.py'; DT=S+'trackers/damage_tracker.py'
CD=S+'calcs/compute_damage_utils.py'; SF=S+'calcs/stat_fns.py'; DS=S+'damage_simulator.py'; UT=S+'utils.py'; SK=S+'skills/skill.py'; SL=S+'skills/skill_library.py'; CL=S+'skills/create_skill_library.py'
GC=S+'game_data/game_consts.py'

prop('C01','Sequenced buttons are pressed at the earliest legal time',
 "When a rotation is given as an ordered list of buttons, every button is pressed at the earliest moment the previous button's cast and animation lock allow, and a global-cooldown skill additionally never before the cooldown started by the last one has elapsed. The cooldown and cast length equal the skill's base times scaled by the speed stat, by haste effects and by the job's trait, truncated to 10 ms, less any flat reductions in effect at the press, with the standard 2.5 s cooldown never falling below 1.5 s. An instant, off-cooldown button costs only its animation lock and never moves the global cooldown.",
 ['inputs','histories','configurations'],'every ordered list of buttons (GCD/oGCD, instant/cast, custom cooldown, haste and swiftcast-like buffs, waits), every speed stat, job trait, and start time',
 'The press time of button n depends on the whole history of buffs, casts and cooldowns before it; the tests contain a few hand-written lists.',
 [RB,SF,SE],[('sequence scheduler','RotationBuilder.__process_q_sequence'),('cast time','RotationBuilder.__get_cast_time'),('speed scaling','StatFns.get_time_using_speed_stat')],
 'RotationBuilder.get_button_press_timing()')
prop('C02','Skills and their follow-ups snapshot and land at the specified times',
 "A skill pressed at a given time snapshots 0.5 s before its cast finishes (immediately if the cast is shorter or instant) and lands at the end of its cast plus its travel delay, the delay being shortened by the same 0.5 s, never below zero, for skills with a cast. Each follow-up lands its own delay after its parent lands, snapshots with the parent or on landing as declared, and hits only the primary target unless declared otherwise (damage-over-time follow-ups are put on every target of the skill). Modifiers that waive the cast time or the travel delay waive exactly that, and no press produces any event other than these.",
 ['inputs','histories'],'every rotation of timed and sequenced presses, all cast/delay/follow-up combinations and skill modifiers',
 'Each field (cast, delay, follow-up kind, modifier, buff in effect) multiplies the cases; tests sample a few combinations.',
 [RB,SA],[('event generation','RotationBuilder.__process_skill'),('follow-ups','RotationBuilder.__process_non_dot_follow_up_skill')],'RotationBuilder.get_skill_timing()')
prop('C03','Damage-over-time ticks: right moments, never doubled, cut on reapplication',
 "A damage-over-time effect ticks every 3 s from the moment it lands (or from the first server tick at or after it when ticks are aligned to the server) strictly before its duration ends. Reapplying the same effect on the same target ends the earlier one at that moment, while effects on other targets or of other skills are untouched, and each tick uses the snapshot of the application it belongs to. When trailing ticks are ignored, exactly the ticks after the last non-tick event are dropped.",
 ['inputs','histories'],'every set of application times (incl. equal, overlapping, unsorted), durations, server-tick offsets, targets, trailing-tick setting',
 'Tick sets depend on the relative alignment of applications, durations and server ticks, including boundary coincidences.',
 [RB],[('tick generation','RotationBuilder.__process_all_dots'),('reapplication','RotationBuilder.__get_consolidated_dot_timing')],'RotationBuilder.get_skill_timing(), DamageBuilder.get_damage_instances()')
prop('C04','Each damage instance carries exactly the effects active at its snapshot',
 "Every damage instance is computed with exactly those player buffs that are active when it snapshots its buffs, and exactly those debuffs active on its own target when it snapshots its debuffs, no matter what is gained or lost between snapshot and landing; follow-ups and ticks that declare they do not snapshot with their parent use the effects active when they land. A skill's own effects start only after its own damage has been resolved, and effects take hold when the skill lands. Exactly one damage instance results for every damaging event per target, and none is lost, duplicated or reordered in time.",
 ['histories','inputs','schedules'],'every bounded rotation over damage, buff, debuff, cast, delayed, follow-up and DoT skills, placed at all relative times on a grid',
 'The result depends on the interleaving of snapshots, landings and expiries; tests pick a handful of orders.',
 [DB,SA,SE],[('event loop','DamageBuilder.get_damage_instances'),('event ordering','SnapshotAndApplicationEvents.Event.__lt__')],'DamageBuilder.get_damage_instances()')
prop('C05','Status effects: start, stack, expire and combine as declared',
 "A status effect is active from the time it is applied through the end of its duration (inclusive) or until its uses are spent; reapplying it extends the remaining time and uses up to the declared maxima (or leaves the time alone when it is declared non-extending), and an extend-only application never creates it. Effects declared to be ended by another effect, or cleared by death, stop immediately, and effects on one target never leak to another. The active effects combine by multiplying damage, main-stat, haste and auto-attack multipliers and adding rates and flat reductions, honouring per-skill allow and deny lists, the job's effect priority, and condition publication.",
 ['histories','inputs'],'every sequence of applying, ending, expiring and querying effects up to a depth, over all effect declarations in a feature alphabet, at all grid times incl. boundaries, and targets',
 'State depends on the full history of applications, uses and expiries; boundary instants and caps multiply.',
 [SE,S+'specs/status_effect_spec.py'],[('tracker','StatusEffectTracker')],'StatusEffectTracker.compile_buffs/compile_debuffs','active buffs and per-target debuffs')
prop('C06','Combo bonus is granted exactly when the combo chain is intact',
 "A combo skill is credited with its combo exactly when the most recent successful skill of its combo group is one of its declared predecessors and was used at most 30 s earlier, or when the combo is forced, automatic, or needs no predecessor. A failed step resets its group, skills of breaking groups reset the groups they break, skills of unrelated groups and non-combo skills reset nothing, and death resets everything. Potency follows from that credit in the resulting damage instances.",
 ['histories'],'every sequence of combo, non-combo, breaking and forced skills up to a depth with all grid gaps around 30 s',
 'Combo state is a function of the whole press history and of timing boundaries.',
 [CT,DB,RB],[('combo tracking','ComboTracker.compile_and_update_combo')],'ComboTracker.compile_and_update_combo, DamageBuilder.get_damage_instances()','last combo action per group')
prop('C07','Job gauges accumulate, cap, expire and are consumed correctly',
 "At any time the value of a job gauge equals the in-order sum of all gains and costs that happened up to then and have not lapsed, clamped after each change between zero and the gauge's maximum, and is zero once the gauge's expiry since its last refresh has passed. It is offered as a condition (with its number when declared) only to skills on the gauge's allow list and only when positive, and a skill sees the gauge as it was before its own change, at its snapshot unless declared to be read on landing. Death empties every gauge.",
 ['histories','inputs'],'every bounded sequence of gains, costs, refreshes, clears and queries at all grid times, including time zero, negative times and expiry boundaries',
 'Clamping and expiry make the value order- and time-dependent; tests cover few sequences.',
 [JR,DB,RB],[('gauge tracking','JobResourceTracker.compile_job_resources')],'JobResourceTracker.compile_job_resources, DamageBuilder.get_damage_instances()','gauge histories')
prop('C08','Auto-attacks fire on the weapon rhythm and pause while casting or channeling',
 "When auto-attacks are enabled, the first swing happens at the first damage of the rotation and each next one a weapon delay later, the delay being reduced by the job trait and by the auto-attack speed effects active at that swing and truncated to 10 ms; a swing that would fall within a cast or channel of the player or an auto-attack downtime of its target is postponed to the end of it. Swings stop once they would land at or after the last event of the rotation and are aimed at the target of the most recent button. A channel lasts until its duration ends or another non-permitted button is pressed, and enabling auto-attacks never changes any other event.",
 ['inputs','histories','configurations'],'every bounded timed rotation with casts, channels, auto-speed effects and target switches, weapon delays and downtimes on a grid',
 'Swing n depends on all earlier postponements and speed effects; alignment boundaries multiply.',
 [RB,CH],[('auto insertion','RotationBuilder.__add_autos'),('pause periods','RotationBuilder.get_no_auto_periods'),('channels','ChannelingTracker')],'RotationBuilder.get_skill_timing(), get_no_auto_periods()')
prop('C09','Downtime removes exactly the damage snapshotting or landing in the window',
 "For every downtime window of a target, exactly the damage events on that target that snapshot or land within the half-open window (and match its damage type, if one is given) are removed for that target, leaving a skill on several targets as if that target had not been listed; every other event, and events that deal no damage, stay untouched. Windows are in seconds on the final (normalised) timeline. A window given without a target applies to every target.",
 ['inputs'],'every bounded rotation over multi-target, DoT, auto and delayed skills, and every window pair on a boundary-hitting grid, per target, per damage type, or global',
 'Boundaries, damage classes and target sets combine; tests use a few windows.',
 [RB],[('filter','RotationBuilder.remove_damage_during_downtime')],'RotationBuilder.get_skill_timing()')
prop('C10','The first damage lands at time zero and shifting a rotation changes nothing',
 "Unless a fight start time is given, all event and press times are shifted so that the first damage lands exactly at zero, and nothing else about the timeline changes; with a fight start time no shift happens. Consequently, delaying or advancing all presses of a rotation by a common amount leaves the resulting damage instances, their effects and their relative times identical. A rotation without damage is left as it is.",
 ['inputs'],'every bounded rotation and every common shift (positive, negative, across zero)',
 'A symmetry over all inputs; tests check particular timelines.',
 [RB,SA],[('normalisation','RotationBuilder.shift_timelines_for_first_damage_instance')],'RotationBuilder.get_skill_timing(), get_button_press_timing(), DamageBuilder.get_damage_instances()')
prop('C11','Results depend only on the rotation, not on call order, repetition or reuse',
 "The timeline, press times and damage instances obtained depend only on the skills, times and settings given: asking again, asking in a different order, adding timed presses in another order, changing the settings back and forth, or adding more skills after a query gives the same answer as a fresh builder given the same content. Objects the caller passes in (skills, modifiers, stats, downtime windows, libraries) are never altered, and separate builders never influence each other.",
 ['histories','schedules'],'every interleaving up to a depth of add, add-next, settings, query, and analysis calls on one or two builders sharing their inputs',
 'It is a statement about call histories; tests make one query per builder.',
 [RB,DB,SA,DS],[('queries','RotationBuilder.get_skill_timing'),('per-run state','DamageBuilder'),('settings','RotationBuilder.set_*')],'public query methods')
prop('C12','The most specific matching condition decides every property of a skill',
 "For every skill whose damage, timing, effects, gauges, combos, channel or follow-ups depend on conditions, the variant used is the one whose condition set is the largest one contained in the conditions in force, or the default when none matches; among equally large matching sets the one declared last is used. The order in which conditions are written, extra unrelated conditions, and surrounding spaces never matter.",
 ['inputs'],'every family of condition sets over a small universe, every set of conditions in force, every spelling',
 'Subset-maximality quantifies over all families and condition sets.',
 [UT,SK,S+'skills/skill_modifier.py'],[('selection','Utils.get_best_key'),('canonical form','Utils.canonicalize_condition')],'Skill.get_*_spec, SkillModifier')
prop('C13','Base damage follows the published damage formulas',
 "For every role, damage type, level and set of stats the base damage equals the floor-by-floor formula for that type: attack power from the buffed, party-bonus main stat, determination (plus direct hit for guaranteed direct hits), tenacity for tanks, speed for DoTs and autos, weapon damage, pet and healer/caster variants, rounded exactly where specified and never below 1 (zero for zero potency). Critical and direct-hit rates, critical bonus and cast/recast scaling likewise equal the published tier formulas for the level. Raising potency, weapon damage, main stat, determination or a damage-relevant substat never lowers damage.",
 ['inputs','configurations'],'the full stat ranges (each substat at every tier boundary), all jobs, levels, versions and damage types',
 'Rounding defects show only at particular stat values; tests check a few points.',
 [CD,SF,S+'processed_stats.py',GC],[('base damage','ComputeDamageUtils.get_base_damage'),('stat tiers','StatFns')],'ComputeDamageUtils.get_base_damage, StatFns, Stats.processed_stats')
prop('C14','Sampled damage always agrees with the reported ranges, odds and moments',
 "For every outcome of the random rolls, each damage instance is its base damage with a roll of plus or minus 5 percent, then critical, direct hit, trait and damage multipliers, each rounded down in that order; a critical (direct) hit happens exactly for the reported rate of rolls, never at rate zero and always at rate one. The value always lies within the reported range for its critical/direct-hit outcome, the four outcome odds are the products of the rates and sum to one, and reported per-hit and total means and variances are those of that distribution. Totals and DPS are the sums over all instances for each sample, over the time from first to last damage, however many instances there are.",
 ['inputs','schedules'],'every answer of the random source on a boundary grid, for every damage instance in a grid of base damages, rates and multipliers',
 'The random source is an adversary here; tests run a few seeds and compare averages with tolerance.',
 [DT,DS],[('sampling','DamageTracker.compute_damage'),('ranges','DamageTracker.get_damage_ranges_and_probabilities'),('moments','DamageSimulator.get_expected_damage_per_damage_instance')],'DamageSimulator public getters')
prop('C15','Guaranteed and buffed critical/direct hits take effect exactly as specified',
 "A hit is a guaranteed (or excluded) critical or direct hit exactly when the skill, the modifier or an active buff or debuff says so, contradictory demands are rejected, and otherwise its rates are the stat rates plus the additions from all active buffs and debuffs. Rate additions active on a guaranteed critical or direct hit become extra damage instead (scaled by the critical bonus or the direct-hit bonus), and damage multipliers of all active effects multiply.",
 ['inputs'],'all combinations of guaranteed/excluded/default over the four sources and both hit kinds, with all rate additions on a grid',
 'Three values for four sources for two kinds, combined with rate additions: tests sample few.',
 [CD],[('rates','ComputeDamageUtils.compute_crit_rates_and_bonuses'),('bonus','ComputeDamageUtils.get_guaranteed_dh_and_crit_bonus_dmg')],'DamageSimulator, ComputeDamageUtils')
prop('C16','Multi-target skills hit every listed target once, with the right falloff',
 "A skill used on several targets produces one damage instance per target, in the listed order, the n-th landing 0.135 s times n-1 after the first; the n-th hit uses that target's debuffs and the skill's variant for that position, with secondary hits at the declared falloff potency. Debuffs and DoTs from the skill apply to each target it reaches, its player effects, gauge changes and combo steps count once per use, and single-target use is identical to the same skill without falloff.",
 ['inputs','histories'],'all skills of a feature alphabet, all target lists up to a size and order, combined with per-target debuffs and other skills at all relative times',
 'Target lists, per-target state and landing order multiply; tests use one or two lists.',
 [DB,RB,SK],[('per-target fan-out','DamageBuilder.get_damage_instances'),('falloff','Skill.__process_aoe_dropoff')],'DamageBuilder.get_damage_instances()')
prop('C17','Kill time is the first moment combined damage reaches the boss HP',
 "For every sample the kill time is the time, in seconds, of the first damage instance at which the running total over all rotations, merged in time order, reaches the boss's HP, or none if it never does. A limit break contributes exactly the stated damage, or the stated mean with plus or minus 5 percent variation, whatever other conditions accompany it.",
 ['inputs','schedules'],'every bounded party of rotations on a time grid, every boss HP at and around every running total, every answer of the random source on a grid',
 'Depends on all merge orders and exact threshold hits; the test compares success counts with a margin.',
 ['ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py'],[('estimate','KillTimeEstimator.estimate_kill_time'),('limit breaks','KillTimeEstimator.get_lb_damage')],'KillTimeEstimator.estimate_kill_time')
prop('C18','Rotations survive the CSV round trip and import means the same as typing them in',
 "Importing a rotation file is equivalent to adding each row by hand with its time, skill, job, conditions and targets, for every column capitalisation, quoting, optional column and row order. Printing the press times of a built rotation and importing that text reproduces the same times, skills, jobs and conditions to the millisecond, and adding a press at a whole-millisecond time schedules it at exactly that millisecond.",
 ['inputs','histories'],'all files up to a row count over an alphabet of rows and header spellings, all millisecond times in a range',
 'Quantifies over file contents and over all decimal times.',
 [S+'rotation_import_utils/csv_utils.py',RB],[('import','CSVUtils.populate_rotation_from_csv'),('export','RotationBuilder.print_button_press_timings_as_csv'),('time conversion','RotationBuilder.add')],'CSVUtils, RotationBuilder')
prop('C19','A skill library holds the data of the requested patch and level, always',
 "For every supported patch version and level, every versioned value a skill is built from is the one introduced by the latest patch not newer than the requested one for that level. Creating libraries repeatedly, in any order or mixture of versions and levels, always yields the same contents for the same request, and earlier libraries keep theirs.",
 ['configurations','histories'],'all supported (version, level) pairs, all ordered pairs/triples of creations, all lookup tables over a bounded set of patch keys',
 'The tables are shared mutable state; tests create each version once.',
 [S+'game_data/specific_skills.py',S+'game_data/generic_job_class.py',CL,UT],[('lookup','SpecificSkills.get_skill_data'),('greatest key not above','Utils.get_greatest_val_less_than_query')],'create_skill_library')
prop('C20','Every skill of every job behaves as its data declares, in every patch and level',
 "Every skill of every job in every supported patch and level, alone or following any other skill of the job, under every condition its data mentions, with and without auto-attacks, can be simulated end to end; it yields exactly the events, damage instances, potencies, effects, combo and gauge credit its data declares. No rotation of legal skills aborts, loses damage or produces a non-finite or negative number.",
 ['programs','configurations'],'all skills, all ordered pairs (and in depth, triples) of skills of each job, all declared conditions, all supported versions and levels',
 'About 7,400 skills times conditions times predecessors; tests hold a handful of rotations per job.',
 [RB,DB,DS,S+'game_data/class_skills'],[('pipeline','RotationBuilder.get_skill_timing -> DamageBuilder.get_damage_instances -> DamageSimulator')],'DamageSimulator.get_per_skill_damage')
prop('C21','Death, weakness and brink of death wipe and weaken exactly as specified',
 "Dying removes all of the player's own buffs, empties every job gauge and breaks every combo from that moment on, and leaves debuffs on targets and already snapshotted damage alone. Weakness and brink of death do the same and reduce the main stat to 75 and 50 percent for 100 s, the latest one replacing the earlier.",
 ['histories','configurations'],'all jobs and versions, all bounded histories mixing these with buffs, combos and gauge skills at all relative times',
 'Any history before and after the death matters; tests cover a few.',
 [S+'game_data/generic_skills/add_generic_skills_to_library.py',SE,CT,JR],[('death skills','add_generic_skills_to_library')],'DamageBuilder.get_damage_instances()')
prop('C22','Damage reports: snapshot totals and interval sums are exact',
 "The per-hit report lists every damage instance once with its landing time, the snapshot time of the event it came from, its skill, target, potency, conditions, effects and expected damage. The damage snapshotted before a time is the sum of the expected damage of exactly the hits snapshotting at or before it, and the interval report gives that sum, rounded to two decimals, at every multiple of the whole-second interval before the last snapshot and at the last snapshot, never decreasing and ending at the total.",
 ['inputs','histories'],'all bounded rotations (incl. DoTs, follow-ups, multi-target, autos), all cut-off times and intervals on a grid',
 'Event identity must survive re-querying for every rotation; tests do not exercise it.',
 [DS,'ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py'],[('report','DamageSimulator.get_per_skill_damage'),('sums','RotationAnalysisUtils')],'DamageSimulator.get_per_skill_damage(rb), RotationAnalysisUtils')
prop('C23','Missed positionals are recognised exactly from the reported bonus percent',
 "When a skill with a positional is reported with a bonus percent, the variant used is the one whose potency yields that percentage over the lowest potency (zero meaning the positional was missed); without a reported bonus the positional is taken as hit. Conditions already in force, including those irrelevant to the bonus, are kept, and a percentage no variant explains never changes the conditions.",
 ['inputs','configurations'],'all positional skills of all jobs, versions and levels, all bonus percents 0..100 and none, all in-force condition subsets',
 'Quantifies over all skills, percents and condition subsets.',
 [UT],[('inference','Utils.get_positional_condition')],'DamageBuilder.get_damage_instances() with a bonus percent')
prop('C24','Every shipped example rotation is played exactly as written, where it is valid',
 "For each supported patch and level exactly the example rotations declared valid for it are offered, each with the declared stats at that level, every party skill once at its stated time and every own skill in order. Each simulates end to end, and its timeline equals that of the same rotation typed in by hand.",
 ['configurations','programs'],'all example rotations in all supported patches and levels, and all bounded synthetic rotation declarations (party skills with and without modifiers, validity ranges)',
 'No test runs the example rotations at every patch and level.',
 ['ama_xiv_combat_sim/example_rotations/specific_rotations.py','ama_xiv_combat_sim/example_rotations/example_rotation_utils.py'],[('selection','SpecificRotations.rotation_is_valid'),('assembly','ExampleRotationUtils.get_example_rotation_with_rb')],'get_example_rotations')
prop('C25','What a skill reports about its buffs and debuffs matches what it does',
 "For every skill, the library's statement that it gives a buff, a debuff, a party buff or a party debuff is true exactly when some variant of the skill or of any of its follow-ups gives one.",
 ['inputs','configurations'],'all combinations of buff/debuff placement over the skill, its variants and up to three follow-ups, and all skills of all supported libraries',
 'Tests check three hand-picked skills.',
 [SK],[('flags','Skill.__set_status_effect_stats, Skill.__set_party_status_effect_stats')],'Skill.has_buff/has_debuff/has_party_buff/has_party_debuff')
prop('C26','The expected best of k runs is the mean best of k independent draws',
 "The expected best of k runs is the mean, over the stated number of independent trials, of the largest of k values drawn uniformly with replacement from the given samples. So it always lies between the smallest and the largest sample, is that sample when all are equal, and leaves the samples as they were.",
 ['inputs'],'all small sample sets, all k and numbers of trials with few draws, every outcome of the draws',
 'The result is random: only enumerating the outcomes of the draws separates it from similar estimates.',
 ['ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py'],[('estimate','RotationAnalysisUtils.get_expected_max_in_k_runs')],'RotationAnalysisUtils.get_expected_max_in_k_runs')
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
