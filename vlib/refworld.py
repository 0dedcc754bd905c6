"""Reference semantics, part 5: the world module."""
import json
import re
from . import dom, ents as en
from .ref import V, Str, NoneV, Native, Reject, RList, RMap
from .text import SymText, norm_numbers
from .sym import Unsupported


class RItem:
    kind = "item"
    const = True

    def __init__(self, id_, data, comps):
        self.id = id_
        self.data = data
        self.comps = comps


class RBlock:
    kind = "block"
    const = True

    def __init__(self, id_, states):
        self.id = id_
        self.states = states


class World:
    """Mixed into the reference interpreter."""

    # ------------------------------------------------------------ arguments
    def w_int(self, v, lo=None, hi=None):
        """text of an integer constant in lo..hi"""
        if not isinstance(v, V) or v.kind != "int" or not v.const:
            raise Reject("integer constant expected")
        ok = dom.and_(True if lo is None else dom.le(lo, v.v),
                      True if hi is None else dom.le(v.v, hi))
        if not self.fork(ok):
            raise Reject("integer out of range")
        return str(v.v) if isinstance(v.v, int) else SymText.mark(v.v)

    def w_bool(self, v):
        if not isinstance(v, V):
            raise Reject("bool expected")
        return "true" if self.const_bool(v) else "false"

    def w_float(self, v):
        if isinstance(v, NoneV):
            raise Reject("float")
        return self.flt(v)

    def w_float_text(self, v):
        if isinstance(v, V) and v.kind == "int" and v.const and \
                not isinstance(v.v, int):
            return SymText.mark(v.v)
        return repr(self.w_float(v))

    def w_enum(self, v, *names):
        s = self.const_str(v)
        if s not in names:
            raise Reject("one of %s" % (names,))
        return s

    def w_sel(self, v):
        if v is None or v.kind not in ("entity", "group"):
            raise Reject("entity or group")
        return ("sel", self.w_now(v))

    def w_now(self, v):
        """[(entity, guard)] now"""
        return [(e, g) for e, g in self.members(v)]

    def w_player(self, v):
        return ("sel", [(e, g) for e, g in self.w_sel(v)[1]
                        if e.type == "player"])

    def w_ent(self, v):
        if v is None or v.kind != "entity":
            raise Reject("entity")
        return ("sel", self.w_now(v))

    def w_pos(self, v):
        if v is None or v.kind != "pos":
            raise Reject("Pos")
        return v.env

    def w_rot(self, v):
        if v is None or v.kind != "rot":
            raise Reject("Rot")
        return v.env

    def w_off(self, v):
        if v is None or v.kind != "offset":
            raise Reject("Offset")
        out = []
        for k, c in v.cs:
            if c.s is None:
                f = float(c.c)
                t = "%.3f" % f
                if float(t) != f:
                    raise Unsupported("coordinate with many digits")
                out.append(k + t)
            elif c.c == 0 and getattr(c, "src", None) is not None:
                out.append(k + SymText.mark(c.src))
            else:
                raise Unsupported("symbolic fraction")
        return " ".join(out)

    def quoted(self, s):
        if not s or re.search(r"[ ,@~^/$&\"'!#%+*=\[{\]}\\|<>`\n]", s):
            return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')
        return s

    def w_item(self, v):
        if isinstance(v, Str):
            return RItem(v.s, "0", {})
        if not isinstance(v, RItem):
            raise Reject("item")
        return v

    def w_block(self, v):
        if isinstance(v, Str):
            v = RBlock(v.s, [])
        if not isinstance(v, RBlock):
            raise Reject("block")
        eq = "=" if self.version_ge((1, 20, 10)) else ":"
        return "%s [%s]" % (v.id, ",".join(
            '"%s"%s%s' % (k, eq, x) for k, x in v.states))

    def item_text(self, it, amount):
        return "%s %s %s%s" % (it.id, amount, it.data, " " + json.dumps(
            it.comps) if it.comps else "")

    def version_ge(self, t):
        """Is the Minecraft version of the configuration at least t?"""
        from .versions import ge
        return self.fork(ge(self.cfg.get("mc_version") or (1, 20, 20), t))

    # -------------------------------------------------------------- output
    def cmd(self, parts, env=(), who=None):
        """An observable command; parts: texts and ("sel", members)."""
        alts = [("", True, "-")]
        if who is not None:
            alts = [("", g, e) for e, g in who[1]]
        for p in parts:
            if isinstance(p, tuple):
                alts = [(t + "<" + e.name + ">", dom.and_(g, m), w)
                        for t, g, w in alts for e, m in p[1]]
            else:
                alts = [(t + p, g, w) for t, g, w in alts]
        for t, g, w in alts:
            chain = tuple((s[0], w.name) + tuple(s[2:]) if len(s) > 1 and
                          s[1] == "@s" else s for s in env)
            for key, args, k in self.contexts(chain, en.event_key):
                a, text = SymText.split(t)
                with self.under(dom.and_(g, k)):
                    self.event(("cmd", w if w == "-" else w.name, key,
                                norm_numbers(text)),
                               tuple(a) + tuple(args))
        return NoneV()

    # -------------------------------------------------------------- module
    def mod_world(self):
        d = {n[2:]: Native(self.w_native(getattr(self, n)))
             for n in dir(self) if n.startswith("f_")}
        d["Item"] = Native(self.w_native(self.new_item))
        d["Block"] = Native(self.w_native(self.new_block))
        return d

    @staticmethod
    def w_native(f):
        return lambda ctx, pos, kw: f(pos, kw)

    def new_item(self, pos, kw):
        a = self.args(["id", "data", "keep_on_death", "can_destroy",
                       "can_place_on", "lock"], pos, kw, 1)
        comps = {}
        ids = {}
        for k in ("can_destroy", "can_place_on"):
            ids[k] = self.strs_of(a[k]) if k in a else []
            if ids[k]:
                comps["minecraft:" + k] = {"blocks": ids[k]}
        id_ = self.const_str(a["id"])
        data = self.w_int(a["data"], 0, 32767) if "data" in a else "0"
        if "keep_on_death" in a and self.w_bool(a["keep_on_death"]) == "true":
            comps["minecraft:keep_on_death"] = {}
        lock = a.get("lock")
        if lock is not None and not isinstance(lock, NoneV):
            comps["minecraft:item_lock"] = {"mode": self.w_enum(
                lock, "lock_in_slot", "lock_in_inventory")}
        return RItem(id_, data, comps)

    def strs_of(self, v):
        if not isinstance(v, RList):
            raise Reject("list expected")
        return [self.const_str(x) for x in v.items]

    def new_block(self, pos, kw):
        a = self.args(["id", "states"], pos, kw, 1)
        id_ = self.const_str(a["id"])
        states = []
        if "states" in a:
            m = a["states"]
            if not isinstance(m, RMap):
                raise Reject("map expected")
            for k, v in m.items:
                k = self.const_str(k)
                if isinstance(v, Str):
                    v = '"%s"' % v.s
                elif isinstance(v, V) and v.kind == "bool" and v.const:
                    v = self.w_bool(v)
                elif isinstance(v, V) and v.kind == "int":
                    v = self.w_int(v)
                else:
                    raise Reject("block state")
                states.append((k, v))
        return RBlock(id_, states)

    # -------------------------------------------------------------- blocks
    def f_clone(self, pos, kw):
        a = self.args(["origin", "offset", "dest", "mode", "no_air"], pos,
                      kw, 3)
        mode = self.opt_str(a.get("mode"))
        if mode not in (None, "move", "force"):
            raise Reject("mode")
        return self.cmd(["clone ~ ~ ~ %s %s %s %s" % (
            self.w_off(a["offset"]), self.w_off(a["dest"]),
            "masked" if "no_air" in a and self.w_bool(a["no_air"]) == "true"
            else "replace", mode or "normal")], self.w_pos(a["origin"]))

    def f_clone_only(self, pos, kw):
        a = self.args(["origin", "offset", "dest", "block", "mode"], pos,
                      kw, 4)
        mode = self.opt_str(a.get("mode"))
        if mode not in (None, "move", "force"):
            raise Reject("mode")
        return self.cmd(["clone ~ ~ ~ %s %s filtered %s %s" % (
            self.w_off(a["offset"]), self.w_off(a["dest"]),
            mode or "normal", self.w_block(a["block"]))],
            self.w_pos(a["origin"]))

    def how(self, a, *names):
        s = self.w_enum(a["replacement"], *names) if "replacement" in a \
            else "all"
        return {"aironly": "keep", "all": "replace"}.get(s, s)

    def f_fill(self, pos, kw):
        a = self.args(["origin", "offset", "block", "replacement"], pos, kw,
                      3)
        return self.cmd(["fill ~ ~ ~ %s %s %s" % (
            self.w_off(a["offset"]), self.w_block(a["block"]), self.how(
                a, "destroy", "hollow", "outline", "aironly", "all"))],
            self.w_pos(a["origin"]))

    def f_fill_replace(self, pos, kw):
        a = self.args(["origin", "offset", "block", "replaces"], pos, kw, 4)
        return self.cmd(["fill ~ ~ ~ %s %s replace %s" % (
            self.w_off(a["offset"]), self.w_block(a["block"]),
            self.w_block(a["replaces"]))], self.w_pos(a["origin"]))

    def f_setblock(self, pos, kw):
        a = self.args(["pos", "block", "replacement"], pos, kw, 2)
        return self.cmd(["setblock ~ ~ ~ %s %s" % (
            self.w_block(a["block"]), self.how(a, "aironly", "destroy",
                                               "all"))],
            self.w_pos(a["pos"]))

    # ------------------------------------------------------------ entities
    def f_damage(self, pos, kw):
        a = self.args(["target", "amount", "cause", "damager"], pos, kw, 2)
        out = ["damage ", self.w_sel(a["target"]), " " + self.w_int(
            a["amount"], 0)]
        cause = self.opt_str(a.get("cause"))
        d = a.get("damager")
        if d is not None and not isinstance(d, NoneV):
            d = self.w_ent(d)
            if cause is None:
                raise Reject("damager without cause")
            out += [" %s entity " % cause, d]
        elif cause is not None:
            out.append(" " + cause)
        return self.cmd(out)

    def f_effect_give(self, pos, kw):
        a = self.args(["target", "effect", "duration", "amplifier",
                       "particle"], pos, kw, 3)
        return self.cmd(["effect ", self.w_sel(a["target"]), " %s %s %s %s" % (
            self.const_str(a["effect"]), self.w_int(a["duration"], 0),
            self.w_int(a["amplifier"], 0, 255) if "amplifier" in a else "0",
            "true" if "particle" in a and
            self.w_bool(a["particle"]) == "false" else "false")])

    def f_effect_clear(self, pos, kw):
        a = self.args(["target"], pos, kw, 1)
        return self.cmd(["effect ", self.w_sel(a["target"]), " clear"])

    def f_enchant(self, pos, kw):
        a = self.args(["target", "enchantment", "level"], pos, kw, 2)
        return self.cmd(["enchant ", self.w_sel(a["target"]), " %s %s" % (
            self.const_str(a["enchantment"]),
            self.w_int(a["level"], 1) if "level" in a else "1")])

    def f_event_entity(self, pos, kw):
        a = self.args(["target", "event"], pos, kw, 2)
        return self.cmd(["event entity ", self.w_sel(a["target"]),
                         " " + self.const_str(a["event"])])

    def f_kill(self, pos, kw):
        a = self.args(["target"], pos, kw, 1)
        return self.cmd(["kill ", self.w_sel(a["target"])])

    def f_msg_me(self, pos, kw):
        a = self.args(["sender", "message"], pos, kw, 2)
        return self.cmd(["me " + self.const_str(a["message"])],
                        who=self.w_ent(a["sender"]))

    def f_msg_say(self, pos, kw):
        a = self.args(["sender", "message"], pos, kw, 2)
        return self.cmd(["say " + self.const_str(a["message"])],
                        who=self.w_ent(a["sender"]))

    def f_msg_tell(self, pos, kw):
        a = self.args(["sender", "receiver", "message"], pos, kw, 3)
        return self.cmd(["tell ", self.w_sel(a["receiver"]),
                         " " + self.const_str(a["message"])],
                        who=self.w_ent(a["sender"]))

    def slot_item(self, a):
        return "%s %s %s" % (
            self.w_int(a["slot"]),
            "keep" if "keep_old" in a and self.w_bool(a["keep_old"]) ==
            "true" else "destroy",
            self.item_text(self.w_item(a["item"]),
                           self.w_int(a["amount"], 1) if "amount" in a
                           else "1"))

    def f_replaceitem_block(self, pos, kw):
        a = self.args(["pos", "slot", "item", "amount", "keep_old"], pos, kw,
                      3)
        return self.cmd(["replaceitem block ~ ~ ~ slot.container " +
                         self.slot_item(a)], self.w_pos(a["pos"]))

    def f_replaceitem_entity(self, pos, kw):
        a = self.args(["target", "location", "slot", "item", "amount",
                       "keep_old"], pos, kw, 4)
        return self.cmd(["replaceitem entity ", self.w_sel(a["target"]),
                         " %s %s" % (self.const_str(a["location"]),
                                     self.slot_item(a))])

    def f_ride_start_tp_ride(self, pos, kw):
        a = self.args(["rider", "ride"], pos, kw, 2)
        return self.cmd(["ride ", self.w_ent(a["rider"]), " start_riding ",
                         self.w_ent(a["ride"]), " teleport_ride"])

    def f_ride_start_tp_rider(self, pos, kw):
        a = self.args(["rider", "ride", "fill"], pos, kw, 2)
        return self.cmd(["ride ", self.w_sel(a["rider"]), " start_riding ",
                         self.w_ent(a["ride"]), " teleport_rider " +
                         (self.w_enum(a["fill"], "if_group_fits",
                                      "until_full") if "fill" in a
                          else "until_full")])

    def f_ride_stop(self, pos, kw):
        a = self.args(["rider"], pos, kw, 1)
        return self.cmd(["ride ", self.w_sel(a["rider"]), " stop_riding"])

    def f_ride_evict_riders(self, pos, kw):
        a = self.args(["ride"], pos, kw, 1)
        return self.cmd(["ride ", self.w_sel(a["ride"]), " evict_riders"])

    def f_summon_rider(self, pos, kw):
        a = self.args(["ride", "type", "event", "name"], pos, kw, 2)
        ev, nm = self.opt_str(a.get("event")), self.opt_str(a.get("name"))
        return self.cmd(["ride ", self.w_sel(a["ride"]),
                         " summon_rider %s %s%s" % (
                             self.const_str(a["type"]),
                             "*" if ev is None else ev,
                             "" if nm is None else " " + self.quoted(nm))])

    def f_summon_ride(self, pos, kw):
        a = self.args(["rider", "type", "event", "name", "mode"], pos, kw, 2)
        ev, nm = self.opt_str(a.get("event")), self.opt_str(a.get("name"))
        mode = self.w_enum(a["mode"], "skip_riders", "no_ride_change",
                           "reassign_rides") if "mode" in a else \
            "reassign_rides"
        return self.cmd(["ride ", self.w_sel(a["rider"]),
                         " summon_ride %s %s %s%s" % (
                             self.const_str(a["type"]), mode,
                             "*" if ev is None else ev,
                             "" if nm is None else " " + self.quoted(nm))])

    def f_spread(self, pos, kw):
        a = self.args(["target", "center", "range", "interval"], pos, kw, 3)
        sel = self.w_sel(a["target"])
        env = self.w_pos(a["center"])
        rg = a["range"]
        iv = a.get("interval")
        xs = []
        for v in (rg, iv):
            if isinstance(v, V) and v.kind == "int" and v.const:
                xs.append(v.v)
            else:
                xs.append(0.0 if v is None else self.w_float(v))
        r, i = xs
        if isinstance(r, float) or isinstance(i, float):
            if not (isinstance(r, (int, float)) and
                    isinstance(i, (int, float))):
                raise Unsupported("mixed spread")
            ok = r >= 1 and i >= 0 and i + 1 <= r
        else:
            ok = dom.and_(dom.le(1, r), dom.le(0, i), dom.lt(i, r))
        if not self.fork(ok):
            raise Reject("spread range")
        t = [repr(x) if isinstance(x, (int, float)) else SymText.mark(x)
             for x in (i, r)]
        return self.cmd(["spreadplayers ~ ~ %s %s " % tuple(t), sel], env)

    def f_summon(self, pos, kw):
        a = self.args(["type", "pos", "event", "name", "rot"], pos, kw, 2)
        ty = self.const_str(a["type"])
        env = self.w_pos(a["pos"])
        ev, nm = self.opt_str(a.get("event")), self.opt_str(a.get("name"))
        new = self.version_ge((1, 19, 70))
        rot = a.get("rot")
        if rot is not None:
            rot = self.w_rot(rot)
            if not new:
                raise Reject("rotation needs 1.19.70")
        here = tuple(env) + tuple(rot or ())
        zero = (("", en.Co()), ("", en.Co()))
        if new and rot is None:
            here += (("rotated", zero),)
        if self.g is False:
            return NoneV()
        return self.w_summon(ty, ev, nm, here)

    def f_tag_add(self, pos, kw):
        a = self.args(["target", "tag"], pos, kw, 2)
        return self.retag(self.w_sel(a["target"]), a["tag"], True)

    def f_tag_remove(self, pos, kw):
        a = self.args(["target", "tag"], pos, kw, 2)
        return self.retag(self.w_sel(a["target"]), a["tag"], False)

    def retag(self, sel, tag, v):
        tag = self.const_str(tag)
        for e, g in sel[1]:
            with self.under(g):
                self.utag(e, tag).set(self, v)
        return NoneV()

    def f_tp(self, pos, kw):
        a = self.args(["target", "dest", "check_for_blocks"], pos, kw, 2)
        return self.cmd(["tp ", self.w_sel(a["target"]), " ~ ~ ~ " +
                         self.flag(a, "check_for_blocks")],
                        self.w_pos(a["dest"]))

    def flag(self, a, n, d="false"):
        return self.w_bool(a[n]) if n in a else d

    def f_rotate(self, pos, kw):
        a = self.args(["target", "rot"], pos, kw, 2)
        return self.cmd(["tp @s ~ ~ ~ ~ ~"], (("at", "@s"),) + tuple(
            self.w_rot(a["rot"])), self.w_sel(a["target"]))

    def moved(self, pos, kw, names, k):
        a = self.args(["target"] + names + ["check_for_blocks"], pos, kw, 1)
        t = ""
        for n in names:
            t += " " + k + (self.w_num3(a[n]) if n in a else "0.0")
        return self.cmd(["tp @s%s %s" % (t, self.flag(
            a, "check_for_blocks"))], (("at", "@s"),),
            self.w_sel(a["target"]))

    def w_num3(self, v):
        if isinstance(v, V) and v.kind == "int" and v.const and \
                not isinstance(v.v, int):
            return SymText.mark(v.v)
        return "%.3f" % self.w_float(v)

    def f_move(self, pos, kw):
        return self.moved(pos, kw, ["x", "y", "z"], "~")

    def f_move_local(self, pos, kw):
        return self.moved(pos, kw, ["left", "up", "front"], "^")

    # ------------------------------------------------------------- players
    def f_ability(self, pos, kw):
        if not getattr(self, "cfg", {}).get("education_edition"):
            raise Reject("Education Edition")
        a = self.args(["player", "ability", "value"], pos, kw, 3)
        return self.cmd(["ability ", self.w_player(a["player"]), " %s %s" % (
            self.const_str(a["ability"]), self.w_bool(a["value"]))])

    def f_clear_inventory(self, pos, kw):
        a = self.args(["player"], pos, kw, 1)
        return self.cmd(["clear ", self.w_player(a["player"])])

    def f_clear(self, pos, kw):
        a = self.args(["player", "item_id", "item_data", "max_count"], pos,
                      kw, 2)
        return self.cmd(["clear ", self.w_player(a["player"]), " %s %s %s" % (
            self.const_str(a["item_id"]),
            self.w_int(a["item_data"], -1) if "item_data" in a else "-1",
            self.w_int(a["max_count"], -1) if "max_count" in a else "-1")])

    def f_spawnpoint_clear(self, pos, kw):
        a = self.args(["player"], pos, kw, 1)
        return self.cmd(["clearspawnpoint ", self.w_player(a["player"])])

    def f_gamemode(self, pos, kw):
        a = self.args(["player", "gamemode"], pos, kw, 2)
        return self.cmd(["gamemode %s " % self.w_enum(
            a["gamemode"], "survival", "creative", "adventure", "spectator",
            "default"), self.w_player(a["player"])])

    def f_give(self, pos, kw):
        a = self.args(["player", "item", "amount"], pos, kw, 2)
        return self.cmd(["give ", self.w_player(a["player"]), " " +
                         self.item_text(self.w_item(a["item"]), self.w_int(
                             a["amount"], 1, 32767) if "amount" in a
                             else "1")])

    def f_kick(self, pos, kw):
        a = self.args(["player_name", "reason"], pos, kw, 1)
        why = self.opt_str(a.get("reason"))
        return self.cmd(["kick " + self.quoted(self.const_str(
            a["player_name"])) + ("" if why is None else " " + why)])

    def f_recipe(self, pos, kw):
        a = self.args(["player", "recipe", "unlock"], pos, kw, 3)
        n = self.const_str(a["recipe"])
        return self.cmd(["recipe %s " % (
            "give" if self.w_bool(a["unlock"]) == "true" else "take"),
            self.w_player(a["player"]), " " + (n if n == "*" else
                                               self.quoted(n))])

    def f_spawnpoint_set(self, pos, kw):
        a = self.args(["player", "pos"], pos, kw, 2)
        return self.cmd(["spawnpoint ", self.w_player(a["player"]),
                         " ~ ~ ~"], self.w_pos(a["pos"]))

    def f_xp_add_levels(self, pos, kw):
        a = self.args(["player", "amount"], pos, kw, 2)
        return self.cmd(["xp %sL " % self.w_int(a["amount"]),
                         self.w_player(a["player"])])

    def f_xp_add_points(self, pos, kw):
        a = self.args(["player", "amount"], pos, kw, 2)
        return self.cmd(["xp %s " % self.w_int(a["amount"], 0),
                         self.w_player(a["player"])])

    # ----------------------------------------------------------- judgement
    def ask(self, text, env):
        c = False
        for key, args, g in self.contexts(env):
            if args:
                raise Unsupported("world query at a symbolic position")
            c = dom.or_(c, dom.and_(g, self.facts.bool(
                "%s|-|%s" % (norm_numbers(text), key))))
        return V("bool", dom.split(c))

    def f_is_block(self, pos, kw):
        a = self.args(["pos", "block"], pos, kw, 2)
        return self.ask("block ~ ~ ~ " + self.w_block(a["block"]),
                        self.w_pos(a["pos"]))

    def f_is_same_area(self, pos, kw):
        a = self.args(["pos", "offset", "other", "ignore_air"], pos, kw, 3)
        return self.ask("blocks ~ ~ ~ %s %s %s" % (
            self.w_off(a["offset"]), self.w_off(a["other"]),
            "masked" if self.flag(a, "ignore_air") == "true" else "all"),
            self.w_pos(a["pos"]))

    def f_is_entity(self, pos, kw):
        a = self.args(["ent", "filter"], pos, kw, 2)
        ms = self.w_ent(a["ent"])[1]
        if a["filter"].kind != "filter":
            raise Reject("filter")
        c = False
        sel = dict(self.filtered(a["filter"], [
            (e, e.exists) for e in self.ents]))
        for e, g in ms:
            if e in sel:
                c = dom.or_(c, dom.and_(g, sel[e]))
        return V("bool", dom.split(c))
