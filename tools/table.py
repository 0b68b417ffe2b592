"""The properties."""
from spec import P

AI = 'abstract interpretation of the source over symbolic terms and intervals'
PROD = 'product of the abstract layer automaton with a specification automaton (typestate exploration)'
NOTE = ('Every abstract path of the analysed functions is enumerated from an arbitrary input state; '
        'obligations are discharged by term rewriting and interval reasoning over real arithmetic.')
BAL = 'env/balloon/balloon.py'

P('P04', 'Battery and ballonet stay physical',
  '''After every simulated stride the battery charge lies between zero and the battery capacity (so the
  state of charge lies in [0, 1]) and the air in the ballonet is never negative. The new charge is the old
  charge plus reported solar charging minus reported load over the stride, clipped to that range; the load
  is the daytime load when the sun is up and the nighttime load otherwise, plus the altitude control system's
  power, and nothing is charged at night.''',
  'inputs histories', 'every balloon state, wind, atmosphere, command and stride',
  'tests step a few balloons from default states; the bounds must hold from every state',
  [BAL], [('charge clip, air clamp', BAL)], AI, NOTE, ['balloon state after a step'])
P('P05', 'Each failure condition produces exactly its terminal status',
  '''After a stride a balloon whose charge is exhausted is out of power; otherwise one whose superpressure
  exceeds the envelope limit has burst and one whose superpressure is zero or less is at zero pressure; in
  every other case its status stays OK.''',
  'inputs', 'every balloon state, wind, atmosphere and command',
  'tests construct one state per failure; the equivalence must hold for all states and combinations',
  [BAL], [('status assignment', BAL)], AI, NOTE, ['balloon status'])
P('P06', 'A terminated balloon never flies on',
  '''Stepping a balloon whose status is terminal is rejected with an error and leaves its whole state
  unchanged, and within a multi-stride step the dynamics stop at the stride in which the balloon fails.''',
  'histories inputs', 'every terminal status, command and stride count',
  'a failure in the middle of a multi-stride step needs a particular state and stride',
  [BAL], [('terminal assertion, loop break', BAL)], AI, NOTE)
P('P07', 'Simulated time advances by exactly the requested duration',
  '''When a step completes without failure, the balloon's date and its elapsed time both advance by exactly
  the requested duration; if the balloon fails earlier they advance by a whole number of strides, equally.
  A duration that is not a multiple of the stride is rejected.''',
  'inputs histories', 'every state, command and stride and number of strides analysed (1, 3, 6; thorough: 18)',
  'tests compare one default step', [BAL], [('clock update', BAL)], AI, NOTE)
P('P08', 'The balloon drifts exactly with the wind',
  '''In a step the balloon's east-west displacement is the wind's eastward component times the time
  simulated and the north-south displacement the northward component times that time, independently of the
  command and of everything else in the balloon's state.''',
  'inputs', 'every state, wind vector, command, number of strides', 'tests use a single wind vector',
  [BAL, 'utils/units.py'], [('lateral motion', BAL)], AI, NOTE)
P('P09', 'Commands have their documented energetic and ballonet effect',
  '''When up takes effect no altitude-control power is used and air is never pumped in; when down takes effect
  power is used and air is never vented; when stay takes effect no power is used and the air is unchanged.
  Lift gas never changes, and the balloon remembers the command it was given.''',
  'inputs', 'every state with superpressure inside the envelope limit, every command',
  'signs must hold for every pressure ratio; tests check a few points', [BAL, 'env/balloon/acs.py'],
  [('altitude control system step', BAL), ('fan tables', 'env/balloon/acs.py')], AI, NOTE)
P('P10', 'The envelope safety layer enforces its superpressure bands with hysteresis',
  '''Whatever the history of superpressures, below 150 Pa or from the limit minus 150 Pa upward the layer
  commands up; otherwise below 250 Pa or from the limit minus 250 Pa upward it turns down into stay and lets
  other commands through. Once restricted on a side it stays so until superpressure is at least 50 Pa inside
  that side's 250 Pa bound, and its paused flag is set exactly while restricted.''',
  'histories inputs', 'every sequence of superpressures and commands, every envelope limit',
  'tests follow a few sequences', ['env/balloon/envelope_safety.py'],
  [('state machine and thresholds', 'env/balloon/envelope_safety.py')], PROD, NOTE)
P('P11', 'The altitude safety layer enforces the 50,000 ft floor with hysteresis',
  '''Whatever the history of altitudes, below 50,000 ft the layer commands up; below 50,500 ft it turns down
  into stay; once restricted it remains restricted until 51,000 ft is reached, and other commands pass
  through. Its paused flag is set exactly while restricted.''',
  'histories inputs', 'every sequence of pressures, atmospheres and commands', 'tests follow a few sequences',
  ['env/balloon/altitude_safety.py'], [('state machine and thresholds', 'env/balloon/altitude_safety.py')],
  PROD, NOTE)
P('P12', 'The power safety layer reserves enough energy for the night',
  '''At night the layer starts blocking down (turning it into stay) as soon as the charge that would remain at
  30 minutes after the next sunrise, at the night load, is below 2.5 % of capacity, and keeps blocking for the
  rest of that night; by day it keeps blocking until the charge is at least 5 %. Up and stay always pass
  through, and the paused flag tells exactly whether it is blocking.''',
  'histories inputs', 'every time, charge, load and command; call histories of length 2 (thorough: 3) over several days',
  'tests use fixed times and charges', ['env/balloon/power_safety.py'],
  [('day/night decision and hysteresis', 'env/balloon/power_safety.py')], PROD, NOTE)
P('P13', 'No command bypasses the safety layers',
  '''Every command given to a balloon passes the power layer (when enabled), the envelope layer and the altitude
  layer, each fed with the balloon's current state; the command that takes effect is up if the envelope or
  altitude layer demands it, otherwise stay if any layer blocks a commanded down, otherwise the command.''',
  'inputs configurations', 'every state, command, combination of layer verdicts, power layer on and off',
  'the combination of layers is not tested', [BAL],
  [('layer composition', BAL)], AI, NOTE)
P('P14', 'The balloon reports navigation paused exactly when a layer restricts it',
  '''The balloon's paused flag is true if and only if at least one of its safety layers is currently
  restricting the commands.''',
  'inputs histories', 'every combination of layer states', 'tests cover one layer at a time',
  [BAL], [('paused flag', BAL)], AI, NOTE)
FEAT = 'env/features.py'
P('P15', 'Every observation fits the declared observation space',
  '''Every observation is a flat vector with exactly as many entries as the declared observation space, and
  every entry lies within the declared lower and upper bounds, whatever the balloon's state, the forecast and
  the wind measurements made so far.''',
  'inputs histories configurations', 'every balloon state, wind estimate, uncertainty and altitude level; each shipped feature constructor',
  'tests check the space on a few observations', [FEAT], [('feature construction', FEAT)], AI, NOTE,
  ['observation returned to the agent'])
P('P16', 'Each feature encodes its documented quantity and decodes to it again',
  '''The ambient features encode altitude, charge, sun, power, superpressure, distance and heading, and the flags
  for last command, paused navigation and excess energy, by their documented formulas; each wind triple encodes
  the uncertainty, bearing and magnitude of the wind estimate at its own pressure level (a windless level counts
  as blowing away), shifted so the
  balloon's level is central, and unreachable levels are marked invalid. The named view of an observation
  vector returns each of these from its own position.''',
  'inputs', 'every balloon state and wind estimate, every altitude level analysed',
  'tests decode a handful of entries of default observations', [FEAT, 'utils/transforms.py', 'utils/wind.py'],
  [('feature construction and named view', FEAT)], AI, NOTE)
TAINT = 'taint and dataflow analysis by abstract interpretation of the source'
ENVF, ARENA = 'env/balloon_env.py', 'env/balloon_arena.py'
P('P01', 'A seed determines everything the simulator does',
  '''Given a seed, a freshly constructed environment and every later observation, reward, terminal flag and
  information returned by its steps and seeded or unseeded resets are functions of that seed and the calls made: they depend on no
  wall clock, process-wide random state, hash order, file or other source of nondeterminism. The same holds for
  the arena with an integer or key seed, the balloon dynamics, the wind fields, the wind regression and the features.''',
  'histories inputs', 'every seed; every sequence of up to 2 (thorough: 3) operations after construction',
  'tests compare two runs in one process, where shared hidden state agrees by accident',
  [ENVF, ARENA], [('seeding', ENVF), ('key splitting', ARENA)], TAINT, NOTE, ['observation, reward, terminal, info'])
P('P02', 'A seeded reset forgets every earlier episode',
  '''After resetting with a seed, the first observation, the simulator state and every later step result depend
  on that seed and the calls made since, and on nothing from before the reset: not the old seed, earlier actions, balloon states,
  measurements, safety-layer state or wind.''',
  'histories inputs', 'every old seed, every earlier action sequence analysed (up to 3 steps), every new seed and action',
  'leaks show only for particular earlier histories', [ENVF, ARENA],
  [('episode reset', ARENA)], TAINT, NOTE, ['observation, reward, terminal, info'])
P('P17', 'The reward rewards staying near the station as documented',
  '''The reward of a state is 1 within the station-keeping radius and, outside it, the drop-off factor times
  a value that halves with every half-life of distance beyond the radius. When the balloon was commanded down without
  excess energy it is multiplied by 0.95 minus 0.3 times the altitude-control power mapped from 100-300 W to [0, 1]. It
  always lies in [0, 1].''',
  'inputs configurations', 'every balloon position, charge, command and configured radius, drop-off and half-life',
  'tests evaluate a few distances', [ENVF], [('reward function', ENVF)], AI, NOTE, ['reward'])
P('P18', 'Balloons fly in the true wind, agents see only forecasts and measurements',
  '''The wind used to move a balloon, and the wind measurement given to its features at each reset and step, are the
  ground-truth wind at that balloon's own position, pressure and elapsed time. Feature construction never asks
  the wind field for ground truth anywhere.''',
  'inputs histories', 'every state, every wind field, every action and reset',
  'the places and times at which winds are queried are not observed by tests', [ARENA, 'env/features.py'],
  [('wind lookup in step', ARENA)], AI, NOTE)
P('P19', 'A step applies one command for three minutes and reports what happened',
  '''An environment step applies down, stay or up for actions 0, 1 and 2 to the balloon for three minutes of
  simulated time and returns the new observation, the reward of the new state, and terminal exactly when the balloon has
  failed; the information names exactly the failure that occurred and the elapsed time. Any other action is
  rejected.''',
  'inputs histories', 'every state, action and outcome of the balloon simulation', 'tests step a few times from one state',
  [ENVF, ARENA], [('environment step', ENVF)], AI, NOTE, ['step result'])
P('P20', 'Every episode starts with a healthy balloon in the documented region',
  '''Whatever the seed, a reset places the balloon within 200 km of the station, above the altitude floor and at a
  pressure of at least 6,500 Pa, with status OK, positive charge within capacity and elapsed time zero, at a latitude within
  10 degrees of the equator, at a date in 2011 to 2014, with upwelling infrared at or above 225 W/m2.''',
  'inputs', 'every seed', 'tests sample a handful of seeds', [ARENA, 'utils/sampling.py'],
  [('balloon initialisation', ARENA)], AI, NOTE)
P('P21', 'Wind lookups are clamped to the grid in space and reflected in time',
  '''A grid wind field answers any query: positions are clamped to 500 km, pressure to the 50 to 140 hPa range,
  and beyond 48 hours time runs back and forth without a jump. Each component comes from its own table at that
  place, and column queries agree with point queries.''',
  'inputs', 'every position, pressure and time in the first 8 (thorough: 24) days',
  'tests query a few places', ['env/grid_based_wind_field.py', 'env/generative_wind_field.py'],
  [('lookup point', 'env/grid_based_wind_field.py')], AI, NOTE, ['forecast wind'])
P('P22', 'Winds cannot be queried before the wind field has been reset',
  '''Asking a grid or generative wind field for any wind, or the wind noise for a noise value, before the first
  reset raises an error instead of returning a wind.''',
  'histories inputs', 'every query', 'only some queries are tested', ['env/wind_field.py', 'env/generative_wind_field.py'],
  [('uninitialised guards', 'env/generative_wind_field.py')], 'typestate analysis by abstract interpretation', NOTE)
P('P23', 'Wind queries are pure',
  '''Asking a wind field for a forecast, a forecast column or the ground truth changes nothing in the field, and the answer is
  a function of the field and the query, so the wind at a place and time is the same however often and in whatever order it
  is asked for.''',
  'histories inputs', 'every wind field and query', 'tests compare a few repeated queries',
  ['env/wind_field.py', 'env/simplex_wind_noise.py'], [('get_forecast, get_ground_truth', 'env/wind_field.py')],
  'side-effect (store) analysis by abstract interpretation', NOTE)
P('P24', 'The true wind is the forecast plus wind noise at the same place and time',
  '''For every wind field the ground truth at a position, pressure and time equals the forecast there plus the
  noise for exactly that position, pressure and time, component by component.''',
  'inputs', 'every position, pressure, time within 47 h, each wind field', 'tests check one place',
  ['env/wind_field.py'], [('get_ground_truth', 'env/wind_field.py')], AI, NOTE, ['ground-truth wind'])
P('P03', 'Independent random quantities use independent randomness from the seed',
  '''Within an episode and across successive resets no random key is drawn from twice or both split and drawn from, and
  every harmonic of either wind noise component has its own noise generator. The start position, pressure, date,
  infrared, wind forecast and wind noise all depend on the seed.''',
  'histories', 'every seed, three (thorough: four) successive resets, each wind field',
  'correlated draws look random in any sample a test takes', [ARENA, 'env/simplex_wind_noise.py', 'utils/sampling.py'],
  [('key splitting', ARENA)], 'typestate of random keys along every abstract path', NOTE)
P('P25', 'The wind regression predicts forecast plus fitted error of recent measurements',
  '''The wind estimate at a place is the forecast there plus the prediction of a regression fitted to exactly the errors
  (measurement minus forecast at the measured place) of the measurements made less than six hours from the query; with none it
  is the forecast. Its uncertainty is the predicted variance over the prior variance, and a reset
  forgets all measurements and takes the new forecast.''',
  'inputs histories', 'up to 2 (thorough: 3) measurements at any place and time, columns of up to 3 queries',
  'which measurements enter the fit is not observed by tests', ['env/wind_gp.py'],
  [('observe, query', 'env/wind_gp.py')], AI, NOTE, ['wind estimate and uncertainty'])
UN = 'utils/units.py'
SOL = 'env/balloon/solar.py'
ATMF = 'env/balloon/standard_atmosphere.py'
P('P26', 'Physical quantities convert exactly and combine only as dimensions allow',
  '''A distance, velocity, volume, energy or power built in one unit reads back in every other unit with the exact conversion
  factor, and sums, differences, products, quotients and comparisons of quantities and durations have the value and kind
  dimensional analysis gives; meaningless combinations, comparisons and bare numbers raise an error.
  Dates are always aware and in UTC.''',
  'inputs', 'every magnitude, every pair of kinds and every operator', 'tests check a few values and pairs',
  [UN], [('operators of the quantity classes', UN)], AI, NOTE, ['value and type of every operation'])
P('P27', 'Solar geometry and panel power stay in their physical ranges',
  '''For every valid place and aware time from 1950 to 2100 the sun's elevation lies in [-90, 90] degrees, its azimuth in
  [0, 360], the solar flux is near 1366 W/m2 and depends on the time only, and no inverse function leaves its domain. Attenuation
  lies in [0, 1] and is zero exactly when the sun is below -4.242 degrees, the balloon's shadow only matters when the sun is
  high, and the panels' power lies between zero and 1260 W, none without sun. Invalid places, naive times and out-of-range arguments
  raise an error.''', 'inputs', 'every place, aware time, elevation and pressure',
  'tests compare a few times; the ranges must also hold at the zenith and at the poles', [SOL],
  [('solar_calculator, attenuation, power', SOL)], AI, NOTE, ['solar elevation, flux and power'])
P('P28', 'Sunrise, sunset, noon and midnight are never in the past',
  '''It is afternoon exactly when the sun is sinking. The next solar noon and midnight lie in the half day that
  follows from that, within a day of the given time, and are returned with the sun's elevation then. The next sunrise and
  sunset, aware times at which the sun is nearest to -4.242 degrees, are not in the past; latitudes beyond 60 degrees are
  refused; and the steps to sunrise are zero while the sun is up, otherwise the time to sunrise in steps rounded up.''',
  'inputs', 'every place and time; the default (thorough: also 1 and 10 minute) search resolution',
  'tests check a few days at a few places', [SOL], [('get_next_sunrise_sunset', SOL)], AI,
  NOTE + ' The searches for the extremum are loops bounded by the resolution.', ['times of the events'])
P('P29', 'The atmosphere is consistent, continuous and invertible',
  '''For every sampled set of lapse rates, and every height from -610 m to 85 km, the atmosphere gives a pressure, temperature
  and density obeying the ideal gas law, with the pressure positive, falling with height and continuous across layers, and looking that
  pressure up gives the same height, temperature and density back. Heights and pressures outside the table raise an error.''',
  'inputs', 'every lapse rate sample and every height', 'tests compare tabulated heights of one sample', [ATMF],
  [('at_height and at_pressure', ATMF)], AI, NOTE, ['atmospheric values at a height or pressure'])
P('P30', 'Buoyancy, heat and the gas laws move the balloon each stride',
  '''In every stride the balloon's pressure falls or stays when the displaced air outweighs or equals the flight system and rises
  or stays otherwise, at the steady ascent rate; its air follows the mass flow but never below zero; its gas temperature integrates
  the heat balance, its ambient temperature is the atmosphere's; and vehicle constants, lift gas and infrared never change. Volume and
  superpressure obey the ideal gas law, with zero superpressure when slack and volume = base + slope * superpressure when full.''',
  'inputs', 'every balloon state, atmosphere, command and stride analysed (10 s; thorough: 60 s)',
  'tests step from default states', [BAL], [('one simulation stride', BAL)], AI,
  NOTE + ' Heights are ordered by pressure as P29 decides.', ['balloon state after a stride'])
P('P31', 'The balloon heat balance is physical',
  '''The rate of change of the balloon's temperature is solar plus earth plus convective heat minus emitted heat, over the film's heat
  capacity: independent of the sun when it is down, never falling as the sun strengthens, halved by twice the mass. Air warms a
  colder and cools a warmer balloon and exchanges nothing at equal temperature. The total absorptivity is a fraction or an error, the
  infrared absorptivity grows with temperature and black-body flux and temperature are inverses.''',
  'inputs', 'every temperature, pressure, flux, volume and mass in physical range', 'tests compare a few values',
  ['env/balloon/thermal.py'], [('d_balloon_temperature_dt', 'env/balloon/thermal.py')], AI, NOTE)
P('P32', 'Power tables are bounded and monotone',
  '''For every pressure ratio from 0.99 to 5 and every charge the power table gives between 0 and 350 W, nothing below 30 %
  charge, never less at a higher charge and, fully charged, never less at a higher ratio; other ratios raise an error. The
  altitude control system's most efficient power follows its table between 100 and 400 W, its efficiency lies in [0, 0.4] and mass flow is
  efficiency times power per hour.''', 'inputs', 'every pressure ratio, charge and power',
  'tests look up a few cells', ['env/balloon/power_table.py', 'env/balloon/acs.py'],
  [('lookup', 'env/balloon/power_table.py')], AI, NOTE, ['power looked up'])
P('P33', 'A cold start makes the balloon float at its pressure',
  '''A cold start sets the ballonet's air so that the flight system weighs as much as the displaced air at its pressure, or to zero
  where it is too heavy; the ambient temperature to the atmosphere's there; and volume and superpressure to those of the resulting
  gas. The heat equation is solved for this balloon, place, time and pressure, and nothing else in the state changes.''',
  'inputs', 'every balloon state and atmosphere', 'tests start one balloon', ['env/balloon/stable_init.py'],
  [('cold_start_to_stable_params', 'env/balloon/stable_init.py')], AI,
  NOTE + ' That the Newton iteration converges within ten steps is not decided.', ['balloon state after a cold start'])
P('P34', 'The accessible pressure range ends where superpressure stops being safe',
  '''Each end of the accessible pressure range is the extreme pressure (ballonet empty, or altitude floor) if the superpressure there
  is within 250 Pa inside its limits, and otherwise the pressure at which superpressure, interpolated linearly between the last
  unsafe and the first safe level, crosses the limit it violated. It is an error if no level is safe.''',
  'inputs', 'every superpressure at every level, up to 2 (thorough: 6) unsafe levels at either end, every envelope limit',
  'tests check that the range is sane for one balloon', ['env/balloon/pressure_range_builder.py'],
  [('get_pressure_range', 'env/balloon/pressure_range_builder.py')], AI,
  NOTE + ' The atmosphere is isothermal and the gas the default one; superpressures are arbitrary.', ['pressure range'])
P('P35', 'Positions on the globe follow the great circle and are always valid',
  '''For every centre and offset the resulting place is valid and is the end of the great circle of that length and heading; without an
  offset it is the centre, and no rounding makes the computation fail, even at the poles. A balloon's place is its
  offset from the centre, and copies and pickles of a place are equal to it.''',
  'inputs', 'every centre and every offset up to 25,000 km', 'tests check a few offsets', ['utils/spherical_geometry.py'],
  [('calculate_latlng_from_offset', 'utils/spherical_geometry.py')], AI, NOTE, ['latitude and longitude'])
P('P36', 'Rescalings invert each other and reject meaningless input',
  '''Linear rescaling maps the interval to [0, 1], its inverse maps it back, and the saturating version clips to [0, 1]. Squashing maps
  non-negative values into [0, 1) and its inverse maps them back. Empty or reversed intervals, non-positive scales, negative values
  (also within arrays) and squashed values outside [0, 1) raise an error.''',
  'inputs', 'every value, interval and scale', 'tests check a few values', ['utils/transforms.py'],
  [('rescale and squash functions', 'utils/transforms.py')], AI, NOTE, ['transformed values'])

AGT = 'agents/'
P('P37', 'The random walk agent follows its target pressure',
  '''At the start of every episode the random walk agent draws a new target pressure between 6,500 and 11,400 Pa, and at every later step
  moves it by centred normal noise whose spread grows with the time flown in this episode. It goes up when the balloon's pressure is more
  than 100 Pa above the target, down when it is more than 100 Pa below, and stays otherwise. Rewards play no part, and an episode
  influences the next one only through the random stream.''',
  'inputs histories', 'every observation, seed and draw over episodes of up to 3 (thorough: 5) calls', 'tests call the agent a few times',
  [AGT + 'random_walk_agent.py'], [('the walk and its action', AGT + 'random_walk_agent.py')], AI, NOTE, ['actions'])
P('P38', 'The station seeker flies to the best reachable wind',
  '''The station seeker scores each reachable wind level by the wind's bearing (weighing it less far from the station) and, near the station,
  its speed; discounts the score by the wind's uncertainty towards a default score; adds a small bonus for nearby levels; and heads for a
  level of highest score: up if that is above the balloon, down if below, stay if it is the balloon's own. Unreachable levels are never
  chosen, rewards play no part and nothing is remembered between steps.''',
  'inputs', 'every observation with the listed sets of reachable levels', 'tests build a few observations',
  [AGT + 'station_seeker_agent.py'], [('level scores and action', AGT + 'station_seeker_agent.py')], AI, NOTE, ['actions'])
P('P39', 'Exploration alternates between the agent and its exploratory agent',
  '''An episode explores with the configured probability, drawn anew at its start; otherwise the learner's action is returned unchanged
  throughout. An exploring episode begins with an agent phase, in which the learner's action is returned unchanged, and alternates with
  phases in which the exploratory agent's action is returned; agent phases last 4 hours and exploratory ones 2. The exploratory
  agent begins every episode too and gets the rewards and observations of its phases.''',
  'histories inputs', 'every draw, observation and action over the first phases of an episode', 'tests fix the draws',
  [AGT + 'marco_polo_exploration.py'], [('phases', AGT + 'marco_polo_exploration.py')], AI, NOTE, ['actions'])
P('P40', 'Agents act as their learner decides, and evaluation never explores',
  '''A learned agent passes each observation and reward to its learner exactly once, sends the learner's action in evaluation and
  exploration's action in training, and the learner records the action that was sent. Modes are set by name or value and unknown ones are
  rejected; the frozen agent is greedy on its network's values for the present observation; the random agent's actions are valid.''',
  'inputs histories', 'every observation, reward, action, mode and seed', 'tests drive one agent for a few steps',
  [AGT + 'dqn_agent.py', AGT + 'quantile_agent.py', AGT + 'perciatelli44.py', AGT + 'agent.py'],
  [('begin_episode, step and end_episode', AGT + 'quantile_agent.py')], AI,
  NOTE + ' The learner itself (Dopamine) is a model.', ['actions and recorded transitions'])
P('P41', 'Learning uses the right targets, only when training',
  '''The network agent learns from each step towards reward plus the discounted value of the next action, and towards the reward alone
  at the end of an episode, and never in evaluation. The replay agents train once their memory holds enough, every update period, and
  copy their target network every target period, never otherwise.''',
  'inputs histories', 'every reward, observation, value and step count', 'tests check that parameters change',
  [AGT + 'mlp_agent.py', AGT + 'dqn_agent.py', AGT + 'quantile_agent.py'], [('learning step', AGT + 'mlp_agent.py')], AI,
  NOTE + ' Gradients and optimizers are uninterpreted.', ['updates of the parameters'])
P('P42', 'Checkpoints restore exactly, the latest is found, and only stale ones go',
  '''Loading a checkpoint gives the agent exactly what was saved under that number and nothing if there is none. The latest checkpoint is the
  highest number saved, whatever other files are there, or -1; it becomes visible only when complete. Cleaning up removes exactly the
  checkpoints older than the kept duration and no other file, and an agent with an unusable or no checkpoint starts afresh.''',
  'histories inputs', 'listed directories and iteration numbers (one to seven digits), all contents',
  'tests save a few numbers into an empty directory; foreign files and interrupted writes are not sampled',
  [AGT + 'dopamine_utils.py', AGT + 'dqn_agent.py', AGT + 'quantile_agent.py'],
  [('save, load, latest and clean-up', AGT + 'dopamine_utils.py')],
  'abstract interpretation of the source over a model file system',
  'The file system is a model with concrete names; directories are enumerated, contents are arbitrary.', ['files and agent state'])
P('P43', 'The training loop runs every step once, in order, and resumes where it stopped',
  '''Training resumes after the latest checkpoint, runs the configured episodes per iteration and saves one checkpoint after each.
  Each episode resets the environment, sends the agent's last action, gives the agent and every collector each outcome exactly once, ends
  when terminal or at the maximum length, and reports whether it was terminal; the agent is in training mode throughout
  and the environment is rendered once every rendering period.''',
  'histories schedules', 'every pattern of terminal steps in runs of up to 4 episodes of up to 4 steps (thorough: 9 and 6)',
  'tests count calls of one schedule', ['train_lib.py', 'metrics/collector_dispatcher.py'],
  [('run_training_loop', 'train_lib.py')],
  'abstract interpretation of the source against a specification automaton of calls',
  'Every outcome of every step is enumerated for the listed lengths; observations, rewards and actions are arbitrary.',
  ['calls of the environment, agent and collectors'])
P('P44', 'Collectors report exactly the statistics they are given',
  '''For every episode the console reports its number, the sum of its rewards, its length and the share of each action, and repeats the
  report in its file, complete when training ends; summaries carry the same at the episode's number; the pickle file of an episode holds its statistics in order and no
  other's. Invalid actions and missing directories are errors, and the reward reported is the reward the environment gave.''',
  'inputs histories', 'every reward, over three episodes of 1, 2 and 4 statistics, from episodes 0 and 150',
  'tests feed one episode', ['metrics/console_collector.py', 'metrics/pickle_collector.py', 'metrics/tensorboard_collector.py'],
  [('step and end_episode', 'metrics/console_collector.py')], AI,
  'Rewards are arbitrary; the sequences of actions and the number of episodes are enumerated.', ['log, files and summaries'])
P('P45', 'Evaluation flies each seed once and reports exactly what happened',
  '''Evaluation flies every seed of its suite once, in order: it seeds and then resets the environment, keeps the agent in evaluation mode,
  sends the agent's last action, and ends the flight when it is over or at the maximum length. Each result reports the seed, the sum of
  the rewards, the share of steps within the radius (boundary included), the number of steps, and the failure flags of the final step only
  if the flight ended there. It is rendered once every rendering period. The flight path is the state after each step, as it was then, or empty if not wanted.''',
  'inputs histories', 'every reward, position, flag and action in up to 2 flights of up to 3 steps', 'tests run one environment briefly',
  ['eval/eval_lib.py'], [('eval_agent', 'eval/eval_lib.py')], AI,
  'Every outcome of every step is enumerated for the listed lengths; the environment and agent are models.', ['evaluation results'])
P('P46', 'Suites fly the documented seeds and shards divide them exactly',
  '''The general suites hold the first 10,000, 1,000, 100, 10 and 1 seeds, every flight is 960 steps long, the strata are disjoint and their union
  is the suite of all of them; an unknown suite is an error. The shards of an evaluation divide the suite's seeds without overlap
  or omission, in order, and write their own results to separate files; every shard can be asked for, and there is one unless asked otherwise.''',
  'inputs', 'every suite, and every division of the listed suites into the listed numbers of shards',
  'tests look at one suite', ['eval/suites.py', 'eval/strata_seeds.py', 'eval/eval.py'],
  [('get_eval_suite', 'eval/suites.py'), ('main', 'eval/eval.py')], AI,
  'Suites and numbers of shards are enumerated; results are arbitrary.', ['seeds flown and result files'])
P('P47', 'An evaluation runs what was asked for and its results survive combining',
  '''Configuration is bound before anything is constructed; the wind field, the agent's sizes and the render period are the ones asked for, and a
  checkpoint is loaded exactly if its directory and number are given. Results are written under the suite, agent, checkpoint and shard they belong to, and carry
  every field, arrays of one element as that element. Combining merges exactly the shards of an agent, ordered by seed and unchanged apart from flight paths, which are dropped
  unless asked for, and leaves the shards.''',
  'inputs', 'every result value; the listed flag settings and directories', 'no test runs the program or the combining',
  ['eval/eval.py', 'eval/eval_lib.py', 'eval/combine_eval_shards.py'],
  [('main', 'eval/eval.py'), ('EvalResultEncoder', 'eval/eval_lib.py'), ('combining', 'eval/combine_eval_shards.py')], AI,
  'Flag settings and directories are enumerated; results are arbitrary.', ['result files'])
P('P48', 'Training runs the requested agent, wind field, environment and settings',
  '''Each agent name gives its documented agent, and each wind field name its wind field; unknown names are errors. The agent's shipped
  configuration is used unless another is given, with the given bindings on top; it is bound once, before anything is constructed, and
  unknown parameters are rejected. The environment's sizes, the agent, the collectors, the render period, the number of iterations and the episode lengths are the
  ones asked for (by default a dqn agent flies 200 iterations of 50 episodes of 960 steps), and results go to the agent's and run's own directory.''',
  'inputs', 'every agent and wind field name; the listed flag settings', 'no test runs the training program',
  ['train.py', 'utils/run_helpers.py', 'agents/agent_registry.py', 'train_lib.py'],
  [('main', 'train.py'), ('registry', 'agents/agent_registry.py'), ('configuration', 'utils/run_helpers.py')], AI,
  'Names and flag settings are enumerated; values are arbitrary.', ['what is constructed and called'])
P('P49', 'Every shipped configuration file binds what exists, once',
  '''Every parameter bound in a shipped agent configuration is a parameter of exactly one configurable that exists, bound once; every value
  that refers to a configurable refers to one; and every parameter that configuration must supply is bound. The quantile
  agent starts afresh, and the fine-tuning agent from the published network.''',
  'inputs', 'every shipped configuration file and binding', 'tests load one of the files',
  ['agents/configs/quantile.gin', 'agents/configs/finetune_perciatelli.gin', 'agents/quantile_agent.py', 'agents/dqn_agent.py'],
  [('bindings', 'agents/configs/quantile.gin')], 'static resolution of the bindings against the configurables of the source', NOTE,
  ['configured values'])
P('P50', 'Model weights are read from the right place or the failure is reported',
  '''Loading a model reads the given file if a path is given, an error if it does not exist; otherwise the copy of the installed package, then
  the one of the source tree, and a RuntimeError if there is neither. Each model reads its own file and loading writes nothing.''',
  'inputs', 'every combination of the files that exist, with and without a path', 'tests have one set of files',
  ['models/models.py'], [('loading', 'models/models.py')], 'abstract interpretation of the source over a model file system',
  'The file system is a model; every combination of existing files is enumerated, contents are arbitrary.', ['files read'])
P('P51', 'No two objects share state they did not mean to share',
  '''Whatever is constructed or called, no default argument, dataclass default, class attribute or module variable is mutable state that
  one object can change for another, and every class definition is valid on the supported Python versions (mutable dataclass defaults are not).''',
  'inputs histories', 'every function, class and module of the package', 'sharing shows only in what happens after another object was used',
  ['env/balloon/balloon.py', 'env/balloon_arena.py', 'env/wind_gp.py', 'env/features.py', 'utils/units.py'],
  [('default of the balloon state', BAL)], 'ownership and effect analysis over the syntax tree', 'Sound up to mutation through libraries and reflection.',
  ['object state'])
P('P52', 'The environment is registered once under its documented name',
  '''After importing the environment's gym module, however often registration is asked for and with any version of the registry, exactly
  one environment BalloonLearningEnvironment-v0 is registered; its entry point exists and can be constructed without arguments.''',
  'inputs histories', 'both kinds of gym registry, empty and not, one to three registrations', 'tests see the installed gym only',
  ['env/gym.py', 'env/balloon_env.py'], [('register_env', 'env/gym.py')], AI, 'The registry is a model.', ['registered environments'])
P('P53', 'Generated winds are incompressible and laid out on the grid',
  '''Whatever the network's parameters and input, the generated wind field has the shape of the wind grid, each pressure level and time
  has winds derived from its own flow field alone, and the wind has zero divergence between neighbouring grid points (incompressible).
  The number of outputs of the grid is the product of its sizes.''',
  'inputs', 'every output of the last layer; grids of the listed sizes', 'tests check the shape of one sample',
  ['generative/vae.py'], [('decoder', 'generative/vae.py')], 'abstract interpretation of the source over tensors of symbolic terms',
  'The layers before the flow field are uninterpreted; grid sizes are enumerated (3 to 6 points per side).', ['decoded wind field'])
P('P54', 'Wind noise is a fixed, normalised sum of simplex harmonics',
  '''Between resets the noise of each component is a pure function of place and time: the documented weighted, normalised sum of five simplex
  harmonics with the documented spacings, each at its own offset of at most one cell and with its own generator. A reset replaces generators and offsets;
  asking before a reset, or for an unknown component, is an error.''',
  'inputs histories', 'every position, pressure and time, every random offset', 'tests look at the statistics of a few values',
  ['env/simplex_wind_noise.py'], [('NoisyWindComponent, SimplexOctave', 'env/simplex_wind_noise.py')], AI, NOTE + ' The simplex function is uninterpreted.',
  ['noise added to the wind'])
P('P55', 'Everything the package refers to exists, and calls fit what they call',
  '''On every path, every name used is defined or imported, every import from the package finds what it names, every attribute of a
  module, enumeration or the object itself exists, and every call of a function or class of the package passes arguments it accepts. What the package
  takes from an installed library, that library has.''',
  'inputs', 'every name, import, attribute and call in the package that can be resolved', 'most paths of the programs and error handling are run by no test',
  ['train.py', 'eval/eval.py', 'generative/learn_wind_field_generator.py', 'utils/run_helpers.py', 'acme_utils.py', 'train_acme_qrdqn.py'],
  [('whole package', 'train.py')], 'lint over the syntax tree with resolution of names, imports and signatures', 'References through values of unknown type are not resolved.',
  ['absence of NameError, AttributeError and TypeError'])
P('P56', 'Every implementation can stand in for its interface',
  '''Each method that overrides one of a base class of the package (or of the agent library) accepts every call the base accepts, with the same
  positional arguments, defaults and keywords, and is a property exactly where the base has one. Every concrete class implements all abstract
  methods and no abstract class is constructed.''',
  'inputs', 'every override in the package', 'callers pass optional arguments only on some paths; tests call one implementation with all of them',
  ['agents/agent.py', 'agents/mlp_agent.py', 'agents/station_seeker_agent.py', 'env/wind_field.py', 'metrics/statistics_instance.py'],
  [('agents and fields', 'agents/agent.py')], 'type-level substitutability check over the syntax tree', 'Bases that are not installed are not compared.',
  ['absence of TypeError when one implementation replaces another'])
P('P57', 'Every check the code states takes effect',
  '''Every error that is constructed is raised, every stated condition is really evaluated (no uncalled method or function, no tuple or assertion
  message in its place), can be both true and false as far as its constant comparisons tell, compares values by value, and no handler
  silently drops every error.''',
  'inputs', 'every condition, assertion, raise, return and handler in the package', 'guards matter for inputs the tests do not use',
  ['env/balloon/solar.py', 'env/features.py', 'env/wind_gp.py', 'utils/transforms.py', 'utils/units.py'],
  [('guards', 'utils/transforms.py')], 'lint over the syntax tree with resolution of names, annotations and constants', 'Conditions on values of unknown type are taken as evaluated.',
  ['invalid inputs are rejected'])
P('P58', 'Setting the simulator to a state restores it',
  '''After set_simulator_state with any state, the arena reports exactly that state and the next step flies the restored balloon in the restored
  wind and atmosphere, whatever happened before; set_balloon_state replaces the balloon only. Taking a state changes nothing, includes everything
  the next step uses, and remains as it was when the simulator flies on; all of a balloon is in its state.''',
  'histories inputs', 'every state of the simulator and every state it is set to', 'tests compare one restored state field by field',
  ['env/balloon_arena.py', 'env/simulator_data.py', BAL], [('get/set_simulator_state', 'env/balloon_arena.py')],
  'taint and effect analysis by abstract interpretation of the source', NOTE, ['restored flights'])
P('P59', 'The gym interface and its rendering show what happens',
  '''With a renderer, every reset clears it and shows it the initial state and every step shows it the new state exactly once; render passes
  the mode on and returns its frame without changing anything, and is None without a renderer. The Matplotlib renderer draws exactly the positions
  (km), altitudes and charge (percent) shown since the last reset, rejects unknown modes and writes summaries only when given a writer and an iteration;
  the environment announces three actions, rewards within [0, 1], its modes and its features' observation space, and never swallows errors.''',
  'inputs histories', 'every environment and balloon state, mode, writer and iteration', 'tests render one short flight with a mock',
  ['env/balloon_env.py', 'env/rendering/matplotlib_renderer.py'], [('render, step, reset', 'env/balloon_env.py')],
  'abstract interpretation of the source over recorded collaborators', 'Matplotlib is a model that records what is drawn; pixels are not modelled.', ['frames and summaries'])
P('P60', "The value networks compute what the agents take them to compute",
  '''MLPNetwork applies exactly num_layers dense layers, each with its own weights, to the whole flattened observation: hidden ones of the width asked
  and rectified once, the last linear with one output per action. QuantileNetwork returns per action its own num_atoms outputs as logits, their softmax over
  the quantiles as probabilities and their mean as the action's value; Dopamine's result type is used exactly when asked.''',
  'inputs', 'every observation and weights; numbers of layers, units, actions and quantiles in a family', 'tests check output shapes',
  ['agents/networks.py'], [('MLPNetwork, QuantileNetwork', 'agents/networks.py')], AI, 'Dense layers are arbitrary functions of their whole input.', ['values of actions'])
P('P61', 'Training draws fresh batches and never the evaluation fields',
  '''A training batch has as many distinct fields as asked, any of the data except the last eval_batch_size, drawn with a key derived from the seed and
  never used before. The evaluation fields are exactly the last eval_batch_size (none for zero), the same whenever asked. A dataset directory is read, not written,
  and is its 200 files in order.''',
  'inputs histories', 'every content of the data, seed; sizes in a family; three batches', 'tests check shapes of one batch',
  ['generative/dataset_wind_field_reservoir.py'], [('DatasetWindFieldReservoir', 'generative/dataset_wind_field_reservoir.py')],
  'abstract interpretation of the source with recorded draws', NOTE, ['training and evaluation data'])
P('P62', 'The wind model encodes, draws, decodes and is scored as documented',
  '''The encoder sees each wind x of a field once, as x / (50 + |x|), and returns a mean and a log variance per latent from separate linear outputs; the decoder
  gets mean + exp(logvar / 2) * noise with noise of its own for each latent from the key given, or the mean when asked, and generates fields of the model's shape.
  The losses are the KL divergence to the standard normal and the squared error, and the weight schedules are constant or min(start * increment^(epoch div frequency), max).''',
  'inputs', 'every field, key, latents and schedule values; sizes and epochs in a family', 'tests check output shapes',
  ['generative/vae.py', 'generative/learn_wind_field_generator.py'], [('Encoder, WindFieldVAE', 'generative/vae.py'), ('losses, schedules', 'generative/learn_wind_field_generator.py')],
  AI, 'Dense layers are arbitrary functions of their whole input.', ['learned winds'])
P('P63', 'Static winds, wind sums, speeds and columns are what they say',
  '''The static wind field blows 10 m/s east below 8000 Pa, north below 10000 Pa, west below 12000 Pa and south from there on, everywhere and always; a forecast column
  is the forecasts at its levels in order. Winds add component by component and only to winds, speeds are the lengths of the winds, the mean speed is over all points,
  and a column keeps station exactly when the hull of its winds contains calm.''',
  'inputs', 'every place, time and pressure; every wind', 'tests sample a pressure per layer and few columns',
  ['env/wind_field.py', 'utils/wind.py'], [('SimpleStaticWindField, WindVector', 'env/wind_field.py'), ('is_station_keeping_winds', 'utils/wind.py')],
  AI, 'The convex hull is an arbitrary subset of the column.', ['static winds', 'wind statistics'])
P('P64', 'The sun is where and as strong as the NOAA solar calculator says',
  '''For every valid place and aware time from 1950 to 2100, in whatever time zone the time is given, solar_calculator returns the elevation with
  refraction, the azimuth and the flux of the NOAA solar calculator it cites. The attenuation of sunlight follows the documented air mass, the
  balloon shades a panel exactly above its documented angle, and power is the sum over four panels at 35 and two at 65 degrees of 210 W each.''',
  'inputs', 'a family of places and times with the sun at every kind of elevation, bearing and season, in and off UTC', 'tests sample two places and times with loose tolerances',
  [SOL], [('solar_calculator, solar_power', SOL)], 'abstract interpretation of the source; the terms of its paths compared with the published formulas',
  'The published formulas are written independently in checks/physical.py from the Julian date; terms are compared numerically at the points of the family.', ['solar geometry'])
P('P65', 'The random conditions of an episode have the documented distributions',
  '''Latitudes are uniform in [-10, 10] and longitudes in [-175, 175] degrees, independently; times are whole seconds, uniform in the range given (2011 to 2014 by default);
  pressures are uniform from 6500 Pa to that of the altitude floor. Infrared is 315 * LogitNormal or 300.9568 - 35 * LogNormal^0.68, redrawn with another key below 225; unknown kinds are errors.
  Balloons start 200 km * Beta(1.2, 2) away in a uniform direction, and one draw mixes the two documented extremes of the atmosphere.''',
  'inputs', 'every key and atmosphere', 'tests check ranges of a few draws', ['utils/sampling.py', 'env/balloon_arena.py', 'env/balloon/standard_atmosphere.py'],
  [('sample_location, sample_time, sample_pressure, sample_upwelling_infrared', 'utils/sampling.py'), ('_initialize_balloon', 'env/balloon_arena.py')],
  'abstract interpretation of the source; results as functions of their draws', 'Samplers draw from the distributions they name.', ['initial conditions'])
P('P66', 'Constants, tables and the properties of air are the documented ones',
  '''Gravity, the gas constant, molar masses and time units have their physical values; a new BalloonState has the documented vehicle (1804 m^3 at rest, 0.0199 m^3/Pa,
  68.5 + 92.5 kg, 2380 Pa, 3058.56 Wh at 95 percent, 183.7 and 120.4 W). The safety layer's power table and the fan's efficiency have the documented entry in every cell, and the
  air carries heat to a sphere by the documented conductivity, viscosity, Prandtl, Grashof and Nusselt numbers.''',
  'inputs', 'every constant and default, every cell of the tables, a family of spheres and airs', 'tests touch few entries', ['utils/constants.py', BAL, 'env/balloon/power_table.py', 'env/balloon/acs.py', 'env/balloon/thermal.py'],
  [('BalloonState', BAL), ('lookup', 'env/balloon/power_table.py'), ('get_fan_efficiency', 'env/balloon/acs.py'), ('convective_heat_air_factor', 'env/balloon/thermal.py')],
  'abstract interpretation of the source; terms compared with the documented values', 'The documented values are written in checks/physical.py.', ['parameters'])

P('P67', 'Fine-tuning starts from the published network',
  '''A quantile agent asked to reload Perciatelli starts with the published network as both its online and its target network; one not asked starts fresh.
  Each layer's kernel and bias are the weights and biases of the published layer of the same place, found under the graph's own names. The fine-tuning
  configuration asks for the reload and for a network with the published layers, whose hidden layers come first.''',
  'inputs', 'every value of the published weights; graphs with and without other tensors', 'the published graph is not in the repository, so no test loads it',
  ['agents/quantile_agent.py', 'agents/perciatelli44.py', 'agents/networks.py', 'agents/configs/finetune_perciatelli.gin'],
  [('load_perciatelli_weights', 'agents/quantile_agent.py'), ('load_perciatelli_session', 'agents/perciatelli44.py')],
  AI, NOTE + ' The graph is a model: its tensor names are those the published agent documents.', ['network weights'])

# Not decided: no static argument in reach bounds the quantities they speak of.
P('P68', 'The cold start converges to thermal equilibrium',
  '''After an episode is initialised at any admissible place, time, pressure and atmosphere, the rate of change of the balloon's internal temperature is
  practically zero.''',
  'inputs', 'every admissible start', 'tests look at a few starts', ['env/balloon/stable_init.py'],
  [('cold_start_to_stable_params', 'env/balloon/stable_init.py')], observe=['initial balloon state'],
  na='''The ten Newton iterations are a fixed-length numerical iteration on a nonlinear heat balance; whether they reach the root depends on the contraction of a
  runtime map over five quantities, which neither intervals (they widen at every iteration) nor term rewriting bound. What is decidable statically, that the iteration solves
  for the documented residual and that its fixed points are equilibria, is P33.''')
P('P69', 'Stepping is accurate to rounding and to the stride',
  '''A flight computed with the ten second stride in floating-point arithmetic stays within a small bound of the exact solution of the documented equations.''',
  'histories', 'every flight', 'tests compare a few numbers', [BAL], [('_simulate_step_internal', BAL)], observe=['balloon state after a step'],
  na='''The bound is on accumulated discretisation and rounding error along a chaotic trajectory in a given wind; no static error analysis of this length (17 280 strides of
  transcendental functions) is meaningful. The checks decide the equations of one stride over the reals (P04-P09, P30-P33).''')
P('P70', 'Training improves an agent and published agents score as published',
  '''An agent trained with a shipped configuration ends up with a higher share of time within the radius than before, and the shipped agents and benchmark reach their published scores.''',
  'histories configurations', 'every training run and suite', 'tests run one or two steps', ['train_lib.py', 'agents/quantile_agent.py'],
  [('run_training_loop', 'train_lib.py')], observe=['evaluation results'],
  na='''A statistical outcome of hours of optimisation on data (weights, wind model) that is not in the repository; it is not a function of the source alone. The update rules,
  schedules, data flow and scoring are decided by P40, P41, P45, P60 and P67.''')
P('P71', 'The wind estimate is the Gaussian-process posterior to numerical precision',
  '''For every series of measurements the estimate and its uncertainty equal the exact posterior up to a small relative error, even for nearly coincident measurements.''',
  'inputs histories', 'every series of measurements', 'tests query a few series', ['env/wind_gp.py'],
  [('query_batch', 'env/wind_gp.py')], observe=['wind estimate'],
  na='''The posterior is computed by the library's Cholesky factorisation; its error depends on the conditioning of a runtime kernel matrix, which no static argument on this source
  bounds. The inputs, kernel, noise and use of the result are decided by P25.''')
