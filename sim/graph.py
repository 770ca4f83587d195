"""Reference graphs of tags: worlds and an independent model of dependency questions (P07, P14, P17, P18, P24)."""
import batch, moves, tagcodec as tc
from moves import can_refer, disk

ENGINES = {
 'pc-retail': {'all': ['globals\\globals.globals', 'ui\\ui_tags_loaded_all_scenario_types.tag_collection', 'sound\\sfx\\ui\\cursor.sound', 'sound\\sfx\\ui\\back.sound', 'sound\\sfx\\ui\\flag_failure.sound',
                       'ui\\shell\\main_menu\\mp_map_list.unicode_string_list', 'ui\\shell\\strings\\loading.unicode_string_list', 'ui\\shell\\bitmaps\\trouble_brewing.bitmap', 'ui\\shell\\bitmaps\\background.bitmap'],
               2: ['ui\\ui_tags_loaded_mainmenu_scenario_type.tag_collection'], 0: ['ui\\ui_tags_loaded_solo_scenario_type.tag_collection'], 1: ['ui\\ui_tags_loaded_multiplayer_scenario_type.tag_collection']},
 'xbox-us': {'all': ['globals\\globals.globals', 'ui\\shell\\bitmaps\\white.bitmap', 'ui\\multiplayer_game_text.unicode_string_list'],
             2: ['ui\\default_multiplayer_game_setting_names.unicode_string_list', 'ui\\saved_game_file_strings.unicode_string_list', 'ui\\multiplayer_scenarios.multiplayer_scenario_description', 'ui\\random_player_names.unicode_string_list',
                 'ui\\english.virtual_keyboard', 'ui\\shell\\strings\\default_player_profile_names.unicode_string_list', 'ui\\shell\\strings\\game_variant_descriptions.unicode_string_list',
                 'ui\\shell\\main_menu\\player_profiles_select\\joystick_set_short_descriptions.unicode_string_list', 'ui\\shell\\main_menu\\player_profiles_select\\button_set_short_descriptions.unicode_string_list',
                 'ui\\shell\\main_menu\\player_profiles_select\\button_set_long_descriptions.unicode_string_list', 'sound\\music\\title1\\title1.sound_looping', 'sound\\sfx\\ui\\flag_failure.sound', 'sound\\sfx\\ui\\cursor.sound'],
             0: ['ui\\shell\\solo.ui_widget_collection'], 1: ['ui\\shell\\multiplayer.ui_widget_collection']},
}
ENGINES['mac-retail'] = ENGINES['pc-custom'] = ENGINES['mcc-cea'] = ENGINES['pc-retail']
ENGINES['xbox-nhe'] = ENGINES['xbox-us']

def split(name):
    p, _, g = name.rpartition('.')
    return p, g
def name(t): return t[0] + '.' + t[1]

_deps = {}
def deps(b, g):
    """Set of (path, group) a tag refers to; None if it is not a valid tag of that group."""
    k = (b, g)
    if k not in _deps:
        if len(_deps) > 5000: _deps.clear()
        try:
            h, t = tc.parse(b)
            _deps[k] = frozenset((r.path, r.group) for r in tc.refs(t) if r.path) if h == g else None
        except Exception: _deps[k] = None
    return _deps[k]

def look(files, dirs, t):
    f = batch.where(files, dirs, t[0].replace('\\', '/'), t[1])
    return None if f is None else files[f]

class Broken(Exception): pass

def closure(files, dirs, root, allow_broken=False, unreadable=()):
    """{tag: set of dependencies} for everything reachable; Broken if a needed tag is missing or unreadable."""
    out, todo = {}, [root]
    while todo:
        t = todo.pop()
        if t in out: continue
        b = look(files, dirs, t)
        if not can_refer(t[1]):
            if b is None:
                if allow_broken: continue
                raise Broken(t)
            out[t] = set(); continue
        d = None if b is None or t in unreadable else deps(b, t[1])
        if d is None:
            if allow_broken: continue
            raise Broken(t)
        out[t] = set(d)
        todo += [x for x in d if x not in out]
    return out

def scenario_type(b):
    _, t = tc.parse(b)
    return int.from_bytes(tc.get(t, 'type'), 'big')

def for_map(files, dirs, root, engine, unreadable=()):
    b = look(files, dirs, root)
    if b is None or root in unreadable or deps(b, root[1]) is None: raise Broken(root)
    out = {root}
    req = ENGINES[engine]
    for v in closure(files, dirs, root, unreadable=unreadable).values(): out |= v
    for n in req['all'] + req.get(scenario_type(b), []):
        t = split(n)
        for v in closure(files, dirs, t, unreadable=unreadable).values(): out |= v
        out.add(t)
    return out

def order(ts): return sorted(ts)

# ------------------------------------------------------------------ worlds
GRAPHY = moves.REFY
def gen_graph(rng, n=None, dirs=None, missing=None, groups=None, fill=None):
    dirs = dirs or rng.choice([1, 1, 2, 3])
    w = batch.gen_tags(rng, n or rng.choice([2, 4, 6, 8, 12, 16] * 3 + [40]), groups or (GRAPHY if rng.random() < .9 else None), dirs, fill if fill is not None else rng.choice([0.02, 0.2]), refp=rng.choice([0.15, 0.4, 0.8, 1.0]),
                       shadow=0.2, missing=missing if missing is not None else rng.choice([0, 0, 0, 0.02, 0.3]), budget=8, twins=rng.choice([0, 0, .3, .7]))
    return w

def connect(rng, files, dirs, p=0.7, targets=None, fill=0.05):
    """Rebuilds tags with references among each other, none missing."""
    tags = [(q.replace('/', '\\'), g) for q, g in batch.all_tags(files, dirs)]
    targets = targets or tags
    family = rng.random() < .4; last = [None]     # what goes together often has one name
    for f in sorted(files):
        if files[f] is None or not batch.is_tag(f): continue
        g = f.rpartition('.')[2]
        def pick(al):
            c = [t for t in targets if t[1] in al]
            if c and rng.random() < p:
                t = rng.choice(c)
                if family and rng.random() < .6: t = rng.choice([x for x in c if x[0] == last[0]] or [t])
                last[0] = t[0]
                return t[1], t[0]
            return None
        files[f] = tc.build(g, rng, pick, fill, 6)

def gen_map_world(rng, engine, n=None, dirs=None, stype=None, p=0.4):
    """A scenario with everything an engine needs, connected at random without missing tags."""
    stype = rng.randrange(3) if stype is None else stype
    w = batch.gen_tags(rng, n or rng.choice([2, 4, 6, 10]), GRAPHY, dirs or rng.choice([1, 1, 2]), 0.05, refp=0, shadow=0.15, budget=4, twins=rng.choice([0, 0, .3, .7]))
    req = ENGINES[engine]
    root = (rng.choice(['levels\\test\\t', 'a\\s', 'levels\\a']), 'scenario')
    for t in [split(x) for x in req['all'] + req.get(stype, [])] + [root]:
        w.files['%s/%s' % (rng.choice(w.dirs), disk(*t))] = b''
    connect(rng, w.files, w.dirs, p)
    for f in w.files:
        if f.endswith('/' + disk(*root)):
            g, t = tc.parse(w.files[f])
            tc.put(t, 'type', stype.to_bytes(2, 'big'))
            w.files[f] = tc.serialize(g, t)
    return w, root, stype

def tflags(dirs):
    a = []
    for d in dirs: a += ['-t', d]
    return a

def show(t): return t[0].replace('\\', '/') + '.' + t[1]   # as the tool prints it here

# ------------------------------------------------------------------ verification
VERIFY_GROUPS = ['weapon', 'weapon', 'weapon_hud_interface', 'weapon_hud_interface', 'unit_hud_interface', 'grenade_hud_interface', 'bitmap', 'bitmap', 'gbxmodel', 'model', 'model_animations', 'effect', 'particle', 'particle_system',
                 'sound', 'scenery', 'biped', 'vehicle', 'equipment', 'device_machine', 'projectile', 'scenario_structure_bsp', 'unicode_string_list', 'hud_globals', 'light', 'shader_model']

def edit(files, dirs, t, f):
    """Changes the tag (the copy that counts) by f(tree)."""
    p = batch.where(files, dirs, disk(*t).rpartition('.')[0], t[1])
    g, tree = tc.parse(files[p]); f(tree); files[p] = tc.serialize(g, tree)

def first_item(rng, tree, name):
    r = tc.get(tree, name)
    if not r.items: r.items.append(tc.build_struct(r.sname, rng, lambda al: None, 0.1, 1, [2]))
    return r.items[0]

def set_ref(tree, name, t):
    r = tc.get(tree, name)
    tc.put(tree, name, tc.Ref(t[1] if t else r.group, t[0] if t else '', r.allowed, r.hidden))

def gen_verify_world(rng, engine, n=None, scenarios=1, cycles=True, chains=True):
    """A map world that verification can get through: -> (World, [scenario roots])."""
    w, root, st = gen_map_world(rng, engine, n=2, stype=rng.randrange(3), p=0)
    roots = [root]
    for i in range(1, scenarios): roots.append(('levels\\s%d' % i, 'scenario'))
    hud, text = ('ui\\hud\\g', 'hud_globals'), ('ui\\hud\\text', 'unicode_string_list')
    extra = [('x\\t%d' % i, rng.choice(VERIFY_GROUPS)) for i in range(n or rng.choice([3, 6, 10, 16]))]
    need = [split(x) for x in ENGINES[engine]['all']] + [split(x) for k in (0, 1, 2) for x in ENGINES[engine].get(k, [])]
    for t in roots + [hud, text] + extra + need:
        if batch.where(w.files, w.dirs, disk(*t).rpartition('.')[0], t[1]) is None: w.files['%s/%s' % (rng.choice(w.dirs), disk(*t))] = b''
    connect(rng, w.files, w.dirs, rng.choice([0.3, 0.6, 0.9]), fill=rng.choice([0.03, 0.15]))
    for i, r in enumerate(roots):
        k = st if i == 0 else rng.randrange(3)
        edit(w.files, w.dirs, r, lambda t: tc.put(t, 'type', k.to_bytes(2, 'big')))
    gl = ('globals\\globals', 'globals')
    edit(w.files, w.dirs, gl, lambda t: set_ref(first_item(rng, t, 'interface bitmaps'), 'hud globals', hud))
    def msg(t):
        m = tc.get(t, 'messaging parameters')
        set_ref(m, 'item message text', text if rng.random() < .85 else None)
    edit(w.files, w.dirs, hud, msg)
    whi = [t for t in extra if t[1] == 'weapon_hud_interface']
    rng.shuffle(whi)
    for i, t in enumerate(whi):
        later = whi[i + 1:] if chains else []
        c = rng.choice(whi) if cycles and rng.random() < .5 else rng.choice(later) if later else None
        edit(w.files, w.dirs, t, lambda x: set_ref(x, 'child hud', c))
    return w, roots

def reach(files, dirs, root, engine):
    try: return for_map(files, dirs, root, engine)
    except Broken: return None
