"""Stand-in for the third-party package `mido`, which is not installed here
and which acaciamc's music module imports.  It implements the part of mido's
documented interface that describes a file - MidiFile(path) with .type,
.ticks_per_beat and .tracks; tracks are lists of messages with .time (delta,
in MIDI ticks), .type, the attributes of that type and .is_cc() - by reading
the Standard MIDI File format."""
import struct


class Message:
    is_meta = False

    def __init__(self, type, time=0, **kw):
        self.type = type
        self.time = time
        self.__dict__.update(kw)

    def is_cc(self, control=None):
        if self.type != "control_change":
            return False
        return control is None or self.control == control

    def copy(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return type(self)(**d)


class MetaMessage(Message):
    is_meta = True


class MidiTrack(list):
    def copy(self):
        return MidiTrack(self)


KINDS = {0x8: ("note_off", ("note", "velocity")),
         0x9: ("note_on", ("note", "velocity")),
         0xA: ("polytouch", ("note", "value")),
         0xB: ("control_change", ("control", "value")),
         0xC: ("program_change", ("program",)),
         0xD: ("aftertouch", ("value",)),
         0xE: ("pitchwheel", ("lo", "hi"))}


class _Reader:
    def __init__(self, data):
        self.data, self.i = data, 0

    def byte(self):
        if self.i >= len(self.data):
            raise EOFError
        self.i += 1
        return self.data[self.i - 1]

    def take(self, n):
        if self.i + n > len(self.data):
            raise EOFError
        self.i += n
        return self.data[self.i - n:self.i]

    def varint(self):
        v = 0
        while True:
            b = self.byte()
            v = v << 7 | b & 0x7F
            if b < 0x80:
                return v


def _track(data):
    r = _Reader(data)
    out = MidiTrack()
    status = None
    while r.i < len(data):
        delta = r.varint()
        b = r.byte()
        if b == 0xFF:
            kind = r.byte()
            body = r.take(r.varint())
            if kind == 0x51:
                out.append(MetaMessage("set_tempo", delta,
                                       tempo=int.from_bytes(body, "big")))
            elif kind == 0x2F:
                out.append(MetaMessage("end_of_track", delta))
            elif kind == 0x03:
                out.append(MetaMessage("track_name", delta,
                                       name=body.decode("latin1")))
            elif kind == 0x58:
                out.append(MetaMessage("time_signature", delta,
                                       numerator=body[0],
                                       denominator=2 ** body[1]))
            elif kind == 0x01:
                out.append(MetaMessage("text", delta,
                                       text=body.decode("latin1")))
            else:
                out.append(MetaMessage("unknown_meta", delta,
                                       type_byte=kind, data=tuple(body)))
        elif b in (0xF0, 0xF7):
            body = r.take(r.varint())
            out.append(Message("sysex", delta, data=tuple(body)))
        else:
            if b < 0x80:
                if status is None:
                    raise OSError("running status without last_status")
                args = [b]
            else:
                status, args = b, []
            name, fields = KINDS[status >> 4]
            while len(args) < len(fields):
                args.append(r.byte())
            if any(a > 127 for a in args):
                raise OSError("data byte must be in range 0..127")
            kw = dict(zip(fields, args))
            if name == "pitchwheel":
                kw = {"pitch": (kw["lo"] | kw["hi"] << 7) - 8192}
            out.append(Message(name, delta, channel=status & 15, **kw))
    return out


class MidiFile:
    def __init__(self, filename=None, **kw):
        self.filename = filename
        self.tracks = []
        with open(filename, "rb") as f:
            r = _Reader(f.read())
        if r.take(4) != b"MThd":
            raise OSError("MThd not found. Probably not a MIDI file")
        n = struct.unpack(">L", r.take(4))[0]
        self.type, count, self.ticks_per_beat = struct.unpack(
            ">hhh", r.take(n)[:6])
        for _ in range(count):
            if r.take(4) != b"MTrk":
                raise OSError("no MTrk header at start of track")
            self.tracks.append(_track(r.take(
                struct.unpack(">L", r.take(4))[0])))


def tempo2bpm(tempo):
    return 60 * 1e6 / tempo


def bpm2tempo(bpm):
    return int(round(60 * 1e6 / bpm))
