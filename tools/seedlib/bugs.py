"""Planted changes.  edits: (file, old text, new text)"""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


D, MS, EP, BA = "decoder_top.py", "sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py"
JP, MP, CT, RC, CO = "printers/json_printer.py", "printers/margo_printer.py", "converter_top.py", "run_conversion.py", "controls.py"
UT, DC, BS, PT = "utilities/RTCM_utilities.py", "gnss_types/data_class_methods.py", "gnss_types/base_station.py", "printer_top.py"

bug("s01a", "C01", "a corrupted frame that contains a complete valid frame", "the valid frame inside the corrupted one is lost",
    [(D, "                    self._tail = self._tail[1:]\n", "                    self._tail = self._tail[msg_length:]\n")],
    """
inner = frame(bits((1005, 12), (7, 12)))
bad = bytearray(frame(b"\\x00\\x10" + inner + b"\\x55\\x66"))
bad[-1] ^= 1
got, _ = parse([bytes(bad) + frame(b"abcd")])
need(got == [inner, frame(b"abcd")], got)
""")
bug("s01b", "C01", "a stray 0xD3 directly before a frame, behind other junk", "the preamble following a false preamble is skipped and its frame lost",
    [(D, "                    ptr = ofs + 1\n", "                    ptr = ofs + 2\n")],
    """
f = frame(b"hello world")
got, _ = parse([b"\\x01\\x02\\xd3" + f])
need(got == [f], got)
""")
bug("s01c", "C01", "a CRC-valid block with a reserved header bit set, found while searching behind junk", "something that is not an RTCM3 frame is delivered",
    [(D, "                if (self._tail[ofs + 1] & 0xFC) == 0:\n", "                if (self._tail[ofs + 1] & 0xF8) == 0:\n")],
    """
f = frame(b"hello world")
got, _ = parse([b"\\x01\\x02" + frame(b"reserved bit", res=1) + f])
need(got == [f], got)
""")
bug("s02a", "C02", "a chunk that ends in junk followed by the preamble byte of the next frame", "the frame whose first byte ends the chunk is lost",
    [(D, "                self._tail = self._tail[ofs : ofs + 1]\n                synch_ok = True\n", "                self._tail = self._tail[ofs + 1 :]\n                break\n")],
    """
f = frame(b"hello world")
s = b"\\x01\\x02" + f
for k in range(len(s) + 1):
    got, _ = parse([s[:k], s[k:]])
    need(got == [f], (k, got))
""")
bug("s02b", "C02", "a frame longer than 1024 bytes whose last bytes come in a separate chunk", "the beginning of very long pending frames is cut off",
    [(D, '        self._tail = b"".join([self._tail, chunk])\n', '        # pending data never exceeds one message\n        self._tail = b"".join([self._tail[-1024:], chunk])\n')],
    """
f = frame(bytes(i % 251 for i in range(1023)))
for k in (1, 2, 1000, 1024, 1025, 1027, 1028):
    got, _ = parse([f[:k], f[k:]])
    need(got == [f], k)
""")
bug("s03a", "C03", "a chunk boundary right behind the skipped bytes", "the gap is not counted when the skipped bytes end the chunk",
    [(D, "                and (tail_length < tail_0)\n", "                and (0 < tail_length < tail_0)\n")],
    """
f = frame(b"hello world")
s = f + b"junk" + f
for k in range(len(s) + 1):
    got, n = parse([s[:k], s[k:]])
    need(n == 1, (k, n))
""")
bug("s03b", "C03", "a corrupted frame between two good ones, preamble intact", "gaps which begin with a corrupted frame are not counted",
    [(D, "                    self._tail = self._tail[1:]\n", "                    self._tail = self._tail[1:]\n                    self._synchronized = False\n")],
    """
f = frame(b"hello world")
b = bytearray(f)
b[6] ^= 4
got, n = parse([f + bytes(b) + f + b"xx" + f])
need(n == 2, n)
""")
bug("s04a", "C04", "a frame whose payload has 1022 or 1023 bytes", "correct frames of maximal length are refused",
    [(D, "        crc_calc = CRC24Q.calc(buf[0:data_len])\n", "        crc_calc = CRC24Q.calc(buf[0 : min(data_len, 1024)])\n")],
    """
for n in (1, 2, 255, 256, 1020, 1021, 1022, 1023):
    f = frame(bytes(i * 7 % 256 for i in range(n)))
    got, _ = parse([f])
    need(got == [f], n)
""")
bug("s04b", "C04", "a frame whose checksum field reads zero", "a frame with a zeroed checksum is delivered",
    [(D, "        return crc_calc == crc_get\n", "        return crc_get in (crc_calc, 0)\n")],
    """
f = frame(b"hello world")
got, _ = parse([f[:-3] + bytes(3) + f])
need(got == [f], got)
""")
bug("s05a", "C05", "two 1230 messages, the first announcing more biases than the second", "biases of an earlier 1230 message appear in a later one",
    [(BS, '            self.validity = {"1C": 0, "1P": 0, "2C": 0, "2P": 0}\n            self.correction = {"1C": 0, "1P": 0, "2C": 0, "2P": 0}\n',
      '            self.validity = self._NO_BIAS[0]\n            self.correction = self._NO_BIAS[1]\n'),
     (BS, "    def __post_init__(self):\n", '    _NO_BIAS = (\n        {"1C": 0, "1P": 0, "2C": 0, "2P": 0},\n        {"1C": 0, "1P": 0, "2C": 0, "2P": 0},\n    )\n\n    def __post_init__(self):\n')],
    """
a = bits((1230, 12), (1, 12), (1, 1), (0, 3), (15, 4), (11, 16), (12, 16), (13, 16), (14, 16))
b = bits((1230, 12), (1, 12), (1, 1), (0, 3), (8, 4), (21, 16))
with Tmp() as d:
    convert("JSON-B", [frame(a), frame(b)], d)
    e = js(d, "BASE/GloBias-1230.json")
    need(e[2]["validity"] == {"1C": 1, "1P": 0, "2C": 0, "2P": 0}, e)
""")
bug("s05b", "C05", "a JSON output file that cannot be created", "one unprintable message aborts the whole conversion",
    [(JP, "            raise AssertionError(\n                f\"Failed to create target file '{path}: \" + f\"{type(oe)}: {oe}\"\n            ) from oe\n",
      "            raise OSError(\n                f\"Failed to create target file '{path}: \" + f\"{type(oe)}: {oe}\"\n            ) from oe\n")],
    """
a = bits((1005, 12), (1, 12), (0, 128))
with Tmp() as d:
    write(os.path.join(d, "BASE"), b"in the way")
    try:
        s = convert("JSON", [frame(a)], d)
    except Exception as ex:
        need(False, repr(ex))
    need(s.printing_errors == 1, s)
""")
bug("s06a", "C06", "an MSM1-3 message of NavIC", "the numbers 1131-1133 are ignored",
    [(D, "        messages: Any = (1071, 1072, 1073)\n        messages = [m + i * 10 for i in range(7) for m in messages]\n",
      "        messages: Any = (1071, 1072, 1073)\n        messages = [m + i * 10 for i in range(6) for m in messages]\n")],
    """
with Tmp() as d:
    s = convert("JSON", [frame(msm(1131, [1], [8]))], d)
    need(s.decoding_attempts == 1 and "MSM1/NAVIC-MSM1-1131.json" in tree(d), s)
""")
bug("s06b", "C06", "a QZSS MSM6 message", "1116 is published under the name of 1117",
    [(JP, '"QZS-MSM6-1116.json"', '"QZS-MSM7-1117.json"'), (JP, '    1116: ["QZS", "MSM6"', '    1116: ["QZS", "MSM7"')],
    """
with Tmp() as d:
    convert("JSON", [frame(msm(1116, [1], [2]))], d)
    need(list(tree(d)) == ["MSM6/QZS-MSM6-1116.json"], list(tree(d)))
""")
bug("s06c", "C06", "an ephemeris or station message in MARGO mode", "MARGO mode decodes (and fails to print) ephemerides which it must ignore",
    [(CT, '    conv.printer.format = "MARGO"\n    msm_to_margo', '    eph = SubdecoderEph(bare_data=False)\n    if not conv.decoder.register_decoder(eph.io):\n        return None\n    conv.printer.format = "MARGO"\n    msm_to_margo')],
    """
with Tmp() as d:
    s = convert("MARGO", [frame(bits((1019, 12), (0, 476)))], d)
    need(s.decoding_attempts == 0, s)
""")
bug("s07a", "C07", "an MSM message with external-clock indicator other than 0", "the external clock indicator is published with a wrong value",
    [(MS, "        self.bd.hdr.clk_ext, offset = self.getbitu(buf, offset, 2), offset + 2\n", "        self.bd.hdr.clk_ext, offset = self.getbitu(buf, offset, 1), offset + 2\n")],
    """
with Tmp() as d:
    convert("JSON-B", [frame(msm(1074, [1], [2], ext=k)) for k in range(4)], d)
    e = js(d, "MSM4/GPS-MSM4-1074.json")
    need([x["1000"]["hdr"]["clk_ext"] for x in e[1:]] == [0, 1, 2, 3], e)
""")
bug("s07b", "C07", "an MSM2 message", "lock time and half-cycle fields of MSM2 are read with exchanged widths",
    [(MS, "    __BIT_WIDTH_2 = (10, 22, 4, 1)\n", "    __BIT_WIDTH_2 = (10, 22, 1, 4)\n")],
    """
with Tmp() as d:
    convert("JSON-B", [frame(msm(1072, [1, 2], [2], cell=dict(lock=[9, 14], hc=[1, 0])))], d)
    e = js(d, "MSM2/GPS-MSM2-1072.json")[1]["1000"]["sgn"]
    need(e["lock_time"] == [9, 14] and e["hc_indc"] == [1, 0], e)
""")
bug("s07c", "C07", "a message with observations of satellite 64", "satellite 64 is missing in the satellite mask (and its data is lost)",
    [(MS, "        self.bd.hdr.sat_mask, offset = self.getbitu(buf, offset, 64), offset + 64\n        self.bd.hdr.sat_mask = self.revbitu(self.bd.hdr.sat_mask, 64)\n",
      "        self.bd.hdr.sat_mask = self.getbitu(buf, offset, 63)\n        self.bd.hdr.sat_mask = self.revbitu(self.bd.hdr.sat_mask, 63)\n        offset += 64\n")],
    """
with Tmp() as d:
    convert("JSON-B", [frame(msm(1127, [3, 64], [2]))], d)
    t = tree(d)
    need("MSM7/BDS-MSM7-1127.json" in t, t)
    e = list(js(d, "MSM7/BDS-MSM7-1127.json")[1].values())[0]
    need(e["hdr"]["sat_mask"] == 4 + (1 << 63), e)
""")
bug("s08a", "C08", "a lock-time indicator of 672..703 (last segment)", "lock times of the last segment are halved",
    [(UT, "        elif t < 704:\n            k = (t >> 5) - 1\n", "        elif t < 704:\n            k = min((t >> 5) - 1, 19)\n")],
    """
from math import isclose
with Tmp() as d:
    convert("JSON", [frame(msm(1077, [1, 2, 3], [2], cell=dict(lock=[671, 672, 703])))], d)
    e = js(d, "MSM7/GPS-MSM7-1077.json")[1]["1000"]["obs"]["ltm"]["1C"]
    need(e == {"1": 524288 * (671 - 608), "2": 1048576 * (672 - 640), "3": 1048576 * (703 - 640)}, e)
""")
bug("s08b", "C08", "a BeiDou B3 (6Q) signal", "the carrier frequency published for 6Q is wrong",
    [(UT, '        "6Q": 1268.52,\n', '        "6Q": 1278.75,\n')],
    """
with Tmp() as d:
    convert("JSON", [frame(msm(1127, [1], [9]))], d)
    e = js(d, "MSM7/BDS-MSM7-1127.json")[1]["1000"]["hdr"]["signals"]
    need(e == {"6Q": 1268.52}, e)
""")
bug("s08c", "C08", "an MSM6 message", "MSM6 fine ranges are scaled with the coarse resolution of MSM4",
    [(MS, "        if src.atr.is_msm7 or src.atr.is_msm6:\n            scalers = self.__SCALERS67\n            checkers = self.__CHECKERS67\n",
      "        if src.atr.is_msm7:\n            scalers = self.__SCALERS67\n            checkers = self.__CHECKERS67\n        elif src.atr.is_msm6:\n            scalers = {**self.__SCALERS67, \"phs\": self.__SCALERS45[\"phs\"]}\n            checkers = self.__CHECKERS67\n")],
    """
with Tmp() as d:
    convert("JSON", [frame(msm(1076, [1], [2], sat=dict(ms=[70], rough=[512]), cell=dict(phs=[-1000])))], d)
    e = js(d, "MSM6/GPS-MSM6-1076.json")[1]["1000"]["obs"]["phs"]["1C"]["1"]
    need(abs(e - (70.5 - 1000 * 2**-31) * 299792.458) < 1e-4, e)
""")
bug("s09a", "C09", "a satellite without rough range that is not the last one", "cells of later satellites get the values of the unusable satellite",
    [(MS, "                logger.warning(\n                    f\"No coarse range:gnss={src.atr.gnss},({sat=},{sgn_idx=})\"\n                )\n",
      "                logger.warning(\n                    f\"No coarse range:gnss={src.atr.gnss},({sat=},{sgn_idx=})\"\n                )\n                sat_idx += 1\n                continue\n")],
    """
with Tmp() as d:
    convert("JSON", [frame(msm(1074, [1, 2], [2], sat=dict(ms=[255, 70]), cell=dict(cnr=[11, 22])))], d)
    e = js(d, "MSM4/GPS-MSM4-1074.json")[1]["1000"]["obs"]["c2n"]["1C"]
    need(e.get("2") == 22, e)
""")
bug("s09b", "C09", "a cell whose fine range is flagged unavailable but whose phase is valid (MSM4-7)", "an unavailable range suppresses the phase of the same cell",
    [(MS, "                # Make fine phase range\n                if rng_ok:\n", "                # Make fine phase range\n                if rng_ok and checkers[\"rng\"](src.sgn.rng_fine[sgn_idx]):\n")],
    """
with Tmp() as d:
    convert("JSON", [frame(msm(1077, [3, 4], [2], cell=dict(rng=[0x80000, 5])))], d)
    o = js(d, "MSM7/GPS-MSM7-1077.json")[1]["1000"]["obs"]
    need(set(o["phs"]["1C"]) == {"3", "4"} and set(o["rng"]["1C"]) == {"4"}, o)
""")
bug("s09c", "C09", "a signal announced in the mask for which no satellite of an MSM1-3 message has a cell in first position", "cells are attributed to the wrong signal when the first signal of a satellite is absent (MSM1-3)",
    [(MS, "            rng = float(src.sat.rng_rough[sat_idx]) / 1024.0\n            rng_ok = src.atr.is_msm1 or src.atr.is_msm3\n\n            # Pass through signals of satellite 'sat'\n            i = 0\n            while slots:\n\n                # sgn - RINEX literal - code of signal\n                sgn = self.sgn_map[i]\n                i += 1\n                slotExist = slots & 0x01\n                slots = slots >> 1\n\n                if slotExist == 0:\n                    continue\n",
      "            rng = float(src.sat.rng_rough[sat_idx]) / 1024.0\n            rng_ok = src.atr.is_msm1 or src.atr.is_msm3\n\n            # Pass through signals of satellite 'sat'\n            i = 0\n            while slots:\n\n                # sgn - RINEX literal - code of signal\n                slotExist = slots & 0x01\n                slots = slots >> 1\n\n                if slotExist == 0:\n                    continue\n                sgn = self.sgn_map[i]\n                i += 1\n")],
    """
with Tmp() as d:
    convert("JSON", [frame(msm(1073, [3, 4], [2, 10], cells=[(3, 2), (4, 10)]))], d)
    o = js(d, "MSM3/GPS-MSM3-1073.json")[1]["1000"]["obs"]["rng"]
    need(set(o) == {"1C", "2W"}, o)
""")
bug("s10a", "C10", "a GLONASS ephemeris with a channel number above 8", "channel numbers above 8 are published wrapped",
    [(EP, "        eph.frqSloNum = ie.frqSloNum - 7  # DF040  [-7..13]\n", "        eph.frqSloNum = (ie.frqSloNum & 0x0F) - 7  # DF040  [-7..13]\n")],
    """
with Tmp() as d:
    convert("JSON", [frame(bits((1020, 12), (3, 6), (18, 5), (0, 337)))], d)
    e = js(d, "EPH/GLN-EPH-1020.json")[1]["frqSloNum"]
    need(e == 11, e)
""")
bug("s10b", "C10", "a BeiDou ephemeris with negative clock drift rate", "negative a2 becomes positive",
    [(EP, "        eph.af2, offset = self.getbits(buf, offset, 11), offset + 11  # DF494\n", "        eph.af2, offset = self.getbitu(buf, offset, 11), offset + 11  # DF494\n")],
    """
with Tmp() as d:
    convert("JSON-B", [frame(bits((1042, 12), (3, 6), (0, 13), (0, 4), (0, 14), (0, 5), (0, 17), (-3, 11), (0, 429)))], d)
    e = js(d, "EPH/BDS-EPH-1042.json")[1]
    need(e["af2"] == -3, e)
""")
bug("s10c", "C10", "a NavIC ephemeris with negative clock drift rate", "negative af2 becomes positive",
    [(EP, "        eph.af2, offset = self.getbits(buf, offset, 8), offset + 8  # DF520\n", "        eph.af2, offset = self.getbitu(buf, offset, 8), offset + 8  # DF520\n")],
    """
with Tmp() as d:
    convert("JSON-B", [frame(bits((1041, 12), (3, 6), (0, 10 + 22 + 16), (-3, 8), (0, 408)))], d)
    e = js(d, "EPH/NAVIC-EPH-1041.json")[1]
    need(e["af2"] == -3, e)
""")
bug("s11a", "C11", "a 1033 message with a receiver serial number outside ASCII", "non-ASCII serial numbers are garbled",
    [(BA, "        bs.rcvSerNum = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")\n", "        bs.rcvSerNum = bytes([int(s, 16) for s in symbols]).decode(\"latin-1\")\n")],
    """
def st(b):
    return [(len(b), 8)] + [(x, 8) for x in b]
with Tmp() as d:
    p = bits((1033, 12), (1, 12), *st(b"A"), (0, 8), *st(b"B"), *st(b"C"), *st(b"D"), *st("s\\u00e9r".encode()))
    convert("JSON", [frame(p)], d)
    e = js(d, "BASE/AntAndRcvDesc-1033.json")[1]
    need(e["rcvSerNum"] == "s\\u00e9r", e)
""")
bug("s11b", "C11", "a 1230 message announcing exactly one of the two L2 biases", "the L2 P bias is published as L2 C/A",
    [(BA, '            bs.correction["2P"], offset = (\n', '            bs.correction["2P" if N else "2C"], offset = (\n')],
    """
with Tmp() as d:
    convert("JSON-B", [frame(bits((1230, 12), (1, 12), (0, 4), (1, 4), (-77, 16)))], d)
    e = js(d, "BASE/GloBias-1230.json")[1]
    need(e["correction"] == {"1C": 0, "1P": 0, "2C": 0, "2P": -77}, e)
""")
bug("s11c", "C11", "a reference point with a coordinate below -2^36 (bit 37 handling)", "large negative Z coordinates change sign",
    [(BA, "        bs.refPoint_Z, offset = self.getbits(buf, offset, 38), offset + 38  # DF027\n", "        bs.refPoint_Z, offset = self.getbits(buf, offset + 1, 37), offset + 38  # DF027\n")],
    """
with Tmp() as d:
    for z in (-1, 5, -(1 << 36) - 9, (1 << 37) - 1):
        convert("JSON-B", [frame(bits((1005, 12), (1, 12), (0, 90), (z, 38)))], d)
        e = js(d, "BASE/RefPoint-1005.json")[1]
        need(e["refPoint_Z"] == z, (z, e))
""")
bug("s12a", "C12", "an MSM message whose cell mask has exactly 64 bits", "messages with the maximal number of cells are rejected",
    [(MS, "        if cell_bits > 64:\n", "        if cell_bits >= 64:\n")],
    """
with Tmp() as d:
    s = convert("JSON", [frame(msm(1071, list(range(1, 17)), [2, 3, 4, 8], cells=[(1, 2), (16, 8)]))], d)
    need(s.decoding_errors == 0 and s.decoding_attempts == 1, s)
""")
bug("s12b", "C12", "a station message with surplus bytes", "over-long station messages are published",
    [(BA, "        if Ndec != bufLen:\n", "        if Ndec > bufLen:\n")],
    """
with Tmp() as d:
    s = convert("JSON", [frame(bits((1005, 12), (0, 140)) + b"x")], d)
    need(s.decoding_errors == 1 and not tree(d), s)
""")
bug("s12c", "C12", "an MSM7 message that lacks exactly its last byte", "a truncated MSM7 is accepted",
    [(MS, "            est_len = ((offset + 36 * Nsat + 80 * Ncell + 7) >> 3) + 3\n", "            est_len = min(((offset + 36 * Nsat + 80 * Ncell + 7) >> 3) + 3, len(buf))\n"),
     (MS, "        # Do final length check\n        Nbytes = (offset + 7) >> 3\n        if len(buf) != (Nbytes + 3):\n            raise ExceptionBareDataStructure(\n                f\"Failed final length check:{Nbytes=},buf_len={len(buf)}\"\n            )\n\n        return offset\n\n    def __extract_observables123",
      "        # Do final length check\n        Nbytes = (offset + 7) >> 3\n        if len(buf) > (Nbytes + 3):\n            raise ExceptionBareDataStructure(\n                f\"Failed final length check:{Nbytes=},buf_len={len(buf)}\"\n            )\n\n        return offset\n\n    def __extract_observables123")],
    """
p = msm(1077, [1], [2])
with Tmp() as d:
    s = convert("JSON", [frame(p[:-1])], d)
    need(s.decoding_errors == 1 and not tree(d), s)
""")
bug("s13a", "C13", "messages of more than 24 different numbers, an early number repeated late", "earlier entries of a document are lost when it is reopened",
    [(JP, "        path = os.path.join(self.__wd, JSON_SPEC[msg_num][1])\n        fname = JSON_SPEC[msg_num][3]\n",
      "        path = os.path.join(self.__wd, JSON_SPEC[msg_num][1])\n        fname = JSON_SPEC[msg_num][3]\n\n        # Do not exhaust file descriptors\n        if len(self.__ofiles) >= 24:\n            self.__close()\n")],
    """
sg = {107: 2, 108: 2, 109: 2, 110: 2, 111: 2, 112: 2, 113: 8}
nums = [a * 10 + t for a in sg for t in range(1, 8)]
with Tmp() as d:
    convert("JSON", [frame(msm(n, [1], [sg[n // 10]])) for n in nums + nums], d)
    for p, t in tree(d).items():
        need(len(json.loads(t)) == 3, p)
""")
bug("s13b", "C13", "text that contains a control character below 0x20 or a quote (needs escaping)", "documents with such texts are not valid JSON",
    [(JP, "                asDictionary, indent=indent, allow_nan=True, ensure_ascii=False\n            )\n",
      "                asDictionary, indent=indent, allow_nan=True, ensure_ascii=False\n            ).replace(\"\\\\n\", \"\\n\")\n")],
    """
m = b"a\\nb"
with Tmp() as d:
    convert("JSON", [frame(bits((1029, 12), (1, 12), (0, 33), (3, 7), (3, 8)) + m)], d)
    need(js(d, "BASE/TextStr-1029.json")[1]["message"] == "a\\nb")
""")
bug("s13c", "C13", "two or more messages of one number following each other with another number between", "document is closed twice / label repeated when numbers alternate",
    [(JP, "        self.__ofiles[msg_num].write(line)\n", "        self.__ofiles[msg_num].write(line)\n        if len(self.__ofiles) > 40:\n            self.__ofiles.pop(next(iter(self.__ofiles))).close()\n")],
    """
sg = {107: 2, 108: 2, 109: 2, 110: 2, 111: 2, 112: 2, 113: 8}
nums = [a * 10 + t for a in sg for t in range(1, 8)]
with Tmp() as d:
    convert("JSON", [frame(msm(n, [1], [sg[n // 10]])) for n in nums], d)
    for p, t in tree(d).items():
        try:
            need(len(json.loads(t)) == 2, p)
        except ValueError:
            need(False, p)
""")
bug("s14a", "C14", "auxiliary data enabled while header data is disabled, bare mode", "the auxiliary section disappears",
    [(JP, "            if self.ctrls.enable_aux_data:\n                summary.update({\"aux\": atr})\n", "                if self.ctrls.enable_aux_data:\n                    summary.update({\"aux\": atr})\n")],
    """
with Tmp() as d:
    convert("JSON-B", [frame(msm(1071, [1], [2]))], d, hdr=False, aux=True)
    e = js(d, "MSM1/GPS-MSM1-1071.json")[1]["1000"]
    need("aux" in e and "hdr" not in e, e)
""")
bug("s14b", "C14", "pretty view enabled with header data disabled, station or ephemeris messages", "station entries are no longer spread over lines",
    [(JP, "            asDictionary = asdict(pdata)  # type: ignore\n            indent = 2 if self.ctrls.enable_pretty_view else None\n",
      "            asDictionary = asdict(pdata)  # type: ignore\n            indent = 2 if self.ctrls.enable_pretty_view and self.ctrls.enable_hdr_data else None\n")],
    """
with Tmp() as d:
    convert("JSON", [frame(bits((1005, 12), (0, 140)))], d, hdr=False, pretty=True)
    need('{\\n  "msgNum"' in list(tree(d).values())[0], tree(d))
""")
bug("s15a", "C15", "an epoch whose phases of a signal are all half-cycle ambiguous, half-cycle switch off", "the row of that epoch is missing",
    [(MP, "                value = obs[sat] / lam[sat - 1] if amb_ok else \"NaN\"\n                values.append(value)\n\n            rv.update({fn: values})\n",
      "                value = obs[sat] / lam[sat - 1] if amb_ok else \"NaN\"\n                values.append(value)\n\n            if any(v != \"NaN\" for v in values[1:]):\n                rv.update({fn: values})\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1074, [1], [2], cell=dict(hc=[h]))) for h in (0, 1, 0)], d)
    need(len(obs(d, "GPS/GL1C_MSM4.obs")) == 5, obs(d, "GPS/GL1C_MSM4.obs"))
""")
bug("s15b", "C15", "two MSM types of the same system in one stream", "the tables of MSM types 6 and 7 are mixed in one file",
    [(MP, "        rv = gnss + param + sgn + \"_\" + postf + \".obs\"\n", "        postf = \"MSM7\" if postf == \"MSM6\" and param == \"S\" else postf\n        rv = gnss + param + sgn + \"_\" + postf + \".obs\"\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1096, [1], [2])), frame(msm(1097, [1], [2]))], d)
    need("GAL/ES1C_MSM6.obs" in tree(d), list(tree(d)))
""")
bug("s16a", "C16", "a GLONASS satellite with non-zero channel and a P-code L1 signal", "frequencies and phases of L1P use the L2 channel spacing",
    [(MP, '        df = 0.5625 if sgn in ("1C", "1P") else 0.4375\n', '        df = 0.5625 if sgn == "1C" else 0.4375\n')],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1084, [1], [3]))], d)
    need(abs(obs(d, "GLN/RC1P_MSM4.obs")[1][1] - 1602.5625) < 1e-3, obs(d, "GLN/RC1P_MSM4.obs")[1])
""")
bug("s16b", "C16", "two conversions in one process with different GLONASS channel tables", "wavelengths of the first conversion are used in later ones",
    [(MP, "        frequencies = self.make_crr_frq(gnss, sgn)  # [MHz]\n        lm = ((MSMT.CRNG_1MS * 1e-3) / f for f in frequencies)\n        return tuple(lm)\n",
      "        key = (gnss, sgn)\n        if key not in self._LAMBDAS:\n            frequencies = self.make_crr_frq(gnss, sgn)  # [MHz]\n            lm = ((MSMT.CRNG_1MS * 1e-3) / f for f in frequencies)\n            self._LAMBDAS[key] = tuple(lm)\n        return self._LAMBDAS[key]\n"),
     (MP, "    _DEFAULT_CONTROLS = MargoControls()\n", "    _DEFAULT_CONTROLS = MargoControls()\n    _LAMBDAS: dict[tuple[str, str], tuple[float, ...]] = {}\n")],
    """
f = frame(msm(1085, [3], [2], sat=dict(rate=[5000]), cell=dict(frate=[0])))
for k in (5, -7):
    with Tmp() as d:
        convert("MARGO", [f], d, lit={3: k})
        v = obs(d, "GLN/RD1C_MSM5.obs")[2][3]
        need(abs(v + 5000 / (299.792458 / (1602 + k * 0.5625))) < 2e-3, v)
""")
bug("s16c", "C16", "half-cycle output off, one satellite ambiguous and another one not", "one ambiguous satellite hides the phases of all satellites of the signal",
    [(MP, "                        amb_ok = not pdata.obs.hca[slot][sat]\n", "                        amb_ok = not any(pdata.obs.hca[slot].values())\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1077, [31, 32], [2], cell=dict(hc=[0, 1])))], d)
    v = obs(d, "GPS/GL1C_MSM7.obs")[2][31:]
    need(v[0] == v[0] and v[1] != v[1], v)
""")
bug("s17a", "C17", "a BeiDou epoch exactly 14 s before the end of the week", "the time mark is 604800000 instead of 0",
    [(MP, "            return rv - 604800000 if (rv >= 604800000) else rv\n", "            return rv - 604800000 if (rv > 604800000) else rv\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1124, [1], [2], time=604800000 - 14000))], d)
    need(obs(d, "BDS/BC2I_MSM4.obs")[2][0] == 0, obs(d, "BDS/BC2I_MSM4.obs")[2][0])
""")
bug("s17b", "C17", "a leap-second shift larger than three hours and an epoch late in the day", "the carry of the time shift into the following day is lost",
    [(MP, "            rv = time + day * 86400000 - (10800 - utc_shift) * 1000\n            return rv + 604800000 if rv < 0 else rv\n",
      "            rv = time - (10800 - utc_shift) * 1000\n            if rv < 0:\n                rv, day = rv + 86400000, (day or 7) - 1\n            return rv % 86400000 + day * 86400000\n")],
    """
with Tmp() as d:
    # 23:59:59 + leap seconds beyond 3 h never wraps; a large shift does
    convert("MARGO", [frame(msm(1084, [1], [2], time=(2 << 27) + 86399000))], d, utc=10801)
    need(obs(d, "GLN/RC1C_MSM4.obs")[2][0] == 3 * 86400000, obs(d, "GLN/RC1C_MSM4.obs")[2][0])
""")
bug("s17c", "C17", "leap seconds configured differently from 18", "the configured leap seconds are ignored for GLONASS",
    [(MP, "                pdata.hdr.time, pdata.hdr.day, self.utc_shift, gnss\n", "                pdata.hdr.time, pdata.hdr.day, self._DEFAULT_CONTROLS.gps_utc_shift, gnss\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1084, [1], [2], time=(2 << 27) + 20000000))], d, utc=17)
    need(obs(d, "GLN/RC1C_MSM4.obs")[2][0] == 2 * 86400000 + 20000000 - 10783000, 0)
""")
bug("s18a", "C18", "an MSM2 message (phases without ranges) with lock time enabled", "lock-time files of MSM2 are missing",
    [(MP, "        if self.LT_EN:\n", "        if self.LT_EN and pdata.obs.rng:\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1072, [1], [2]))], d, lock=True)
    need("GPS/GT1C_MSM2.obs" in tree(d), list(tree(d)))
""")
bug("s18b", "C18", "half-cycle output on and an ambiguous phase while lock time is off", "ambiguous phases stay NaN although the switch is on",
    [(MP, "                if self.HC_EN:\n                    amb_ok = True\n", "                if self.HC_EN and self.LT_EN:\n                    amb_ok = True\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1074, [1], [2], cell=dict(hc=[1])))], d, hca=True)
    v = obs(d, "GPS/GL1C_MSM4.obs")[2][1]
    need(v == v, v)
""")
bug("s19a", "C19", "an ephemeris in JARGO mode", "ephemerides of JARGO mode are published unscaled",
    [(CT, "    eph = SubdecoderEph(bare_data=False)\n    base = SubdecoderBaseStationData(bare_data=False)\n\n    if not conv.decoder.register_decoder(msm4567.io):\n        return None\n    if not conv.decoder.register_decoder(msm123.io):\n        return None\n    if not conv.decoder.register_decoder(eph.io):\n        return None\n    if not conv.decoder.register_decoder(base.io):\n        return None\n\n    # Implement and register printers\n    conv.printer.format = \"JARGO\"\n",
      "    eph = SubdecoderEph(bare_data=True)\n    base = SubdecoderBaseStationData(bare_data=False)\n\n    if not conv.decoder.register_decoder(msm4567.io):\n        return None\n    if not conv.decoder.register_decoder(msm123.io):\n        return None\n    if not conv.decoder.register_decoder(eph.io):\n        return None\n    if not conv.decoder.register_decoder(base.io):\n        return None\n\n    # Implement and register printers\n    conv.printer.format = \"JARGO\"\n")],
    """
p = frame(bits((1020, 12), (3, 6), (9, 5), (0, 337)))
with Tmp() as d, Tmp() as e:
    convert("JSON", [p], d)
    convert("JARGO", [p], e)
    need(tree(d) == tree(e), tree(e))
""")
bug("s19b", "C19", "JARGO mode with pretty view enabled", "JSON products of JARGO mode ignore the controls",
    [(CT, '    rtcm3_to_json = JsonPrinter(wfld, controls.JSON, "JARGO")\n', '    rtcm3_to_json = JsonPrinter(wfld, mode="JARGO")\n')],
    """
p = frame(bits((1020, 12), (3, 6), (9, 5), (0, 337)))
with Tmp() as d, Tmp() as e:
    convert("JSON", [p], d, pretty=True)
    convert("JARGO", [p], e, pretty=True)
    need(tree(d) == tree(e), tree(e))
""")
bug("s20a", "C20", "a message that is rejected by its decoder", "rejected messages are not counted as decoding errors",
    [(D, "                rv = dec.decode(msg)\n", "                rv = dec.decode(msg)\n                self.__dec_succeeded += 1\n"), (D, "                self.__dec_succeeded += 1\n                break\n", "                break\n")],
    """
with Tmp() as d:
    s = convert("JSON", [frame(bits((1005, 12), (0, 60)))], d)
    need((s.decoding_attempts, s.decoding_errors) == (1, 1), s)
""")
bug("s20b", "C20", "a message whose output cannot be written", "unprintable messages are not counted as printing errors",
    [(PT, "                self.__attempts_cnt += 1\n                printer.print(dblock)\n", "                printer.print(dblock)\n                self.__attempts_cnt += 1\n")],
    """
with Tmp() as d:
    write(os.path.join(d, "BASE"), b"in the way")
    s = convert("JSON", [frame(bits((1005, 12), (0, 140)))], d)
    need((s.printing_attempts, s.printing_errors) == (1, 1), s)
""")
bug("s21a", "C21", "invalid controls and more than one source", "only the first source gets its log, the session dies on the second",
    [(RC, '            logger.error("Conversion aborted. No valid controls.")\n            logger.deinit()\n', '            logger.error("Conversion aborted. No valid controls.")\n')],
    """
import run_conversion
run_conversion.DEFAULT_CONFIG = "does-not-exist.ini"
with Tmp() as d:
    for n in ("a", "b"):
        write(os.path.join(d, n + ".rtcm3"), frame(bits((1005, 12), (0, 140))))
    try:
        session(f"-o JSON {d}/a.rtcm3 {d}/b.rtcm3")
    except BaseException as ex:
        need(False, repr(ex))
    need("No valid controls" in tree(d)["b-JSON/b-log.txt"])
""")
bug("s21c", "C21", "a source name with more than one dot", "products go to a folder that is not named after the source",
    [(RC, "    fld, _ = os.path.splitext(src_file_path)\n", "    path, name = os.path.split(src_file_path)\n    fld = os.path.join(path, name.split(\".\")[0])\n")],
    """
with Tmp() as d:
    write(os.path.join(d, "base.2024.rtcm3"), frame(bits((1005, 12), (0, 140))))
    session(f"-o JSON {d}/base.2024.rtcm3")
    need("base.2024-JSON/BASE/RefPoint-1005.json" in tree(d), list(tree(d)))
""")
bug("s21d", "C21", "an earlier run of the same source in the same mode which left a sub-folder no longer produced", "leftovers of earlier runs survive",
    [(RC, "            shutil.rmtree(fld)\n", "            for item in os.listdir(fld):\n                item = os.path.join(fld, item)\n                if os.path.isfile(item):\n                    os.remove(item)\n"),
     (RC, "        os.makedirs(fld)\n", "        os.makedirs(fld, exist_ok=True)\n")],
    """
with Tmp() as d:
    write(os.path.join(d, "a.rtcm3"), frame(bits((1005, 12), (0, 140))))
    write(os.path.join(d, "a-JSON/EPH/old.json"), b"[]")
    session(f"-o JSON {d}/a.rtcm3")
    need("a-JSON/EPH/old.json" not in tree(d), list(tree(d)))
""")
bug("s22a", "C22", "an exception other than an I/O or value error while a file is processed", "the exception ends the whole session",
    [(RC, "    except Exception as ex:\n        logger.error(\"Got unexpected exception.\")\n", "    except (OSError, ValueError) as ex:\n        logger.error(\"Got unexpected exception.\")\n")],
    """
import converter_top
real = converter_top.Converter.decode
n = [0]
def boom(self, m):
    n[0] += 1
    if n[0] == 2:
        raise KeyError("fault")
    return real(self, m)
converter_top.Converter.decode = boom
f = frame(bits((1005, 12), (0, 140)))
with Tmp() as d:
    for k in "ab":
        write(os.path.join(d, k + ".rtcm3"), f + f)
    try:
        session(f"-o JSON {d}/a.rtcm3 {d}/b.rtcm3")
    except BaseException as ex:
        need(False, repr(ex))
    need("b-JSON/BASE/RefPoint-1005.json" in tree(d))
""")
bug("s22b", "C22", "the user interrupts while a message is being decoded", "the interrupt is swallowed and the conversion goes on",
    [(D, "        except Exception as ex:  # pylint: disable = broad-exception-caught\n", "        except BaseException as ex:  # pylint: disable = broad-exception-caught\n")],
    """
from sub_decoders import RTCM_BASE
real = RTCM_BASE.BaseStationDataDecoder.get_msg_num
def boom(self, buf):
    raise KeyboardInterrupt
RTCM_BASE.BaseStationDataDecoder.get_msg_num = boom
f = frame(bits((1005, 12), (0, 140)))
with Tmp() as d:
    write(os.path.join(d, "a.rtcm3"), f + f)
    session(f"-o JSON {d}/a.rtcm3")
    need("terminated" in tree(d)["a-JSON/a-log.txt"], tree(d))
""")
bug("s22c", "C22", "an interrupt or fault after at least one message was printed", "documents stay unterminated when the conversion is interrupted",
    [(RC, "    finally:\n        converter.release()\n\n", "    else:\n        converter.release()\n    finally:\n"), (RC, "    return True\n\n\n# ............................................................................\n\n\ndef create_argument_parser", "    return True\n\n\n# ............................................................................\n\n\ndef create_argument_parser")],
    """
import converter_top
real = converter_top.Converter.decode
n = [0]
def boom(self, m):
    n[0] += 1
    if n[0] == 2:
        raise KeyboardInterrupt
    return real(self, m)
converter_top.Converter.decode = boom
f = frame(bits((1005, 12), (0, 140)))
with Tmp() as d:
    write(os.path.join(d, "a.rtcm3"), f + f)
    session(f"-o JSON {d}/a.rtcm3")
    try:
        need(len(js(d, "a-JSON/BASE/RefPoint-1005.json")) == 2)
    except ValueError as ex:
        need(False, repr(ex))
""")
bug("s23a", "C23", "zero leap seconds configured", "a leap-second setting of 0 is treated as missing",
    [(CO, "        if res.gps_utc_shift is None:\n", "        if not res.gps_utc_shift:\n")],
    """
from controls import ConverterControls
with Tmp() as d:
    write(os.path.join(d, "u.ini"), b"[TIME]\\nGPS2UTC = 0\\n")
    c = ConverterControls()
    c.init_from_file("defaults.ini")
    c.update_from_file(os.path.join(d, "u.ini"))
    need(c.boxed_controls.MARGO.gps_utc_shift == 0)
""")
bug("s23b", "C23", "a switch written as yes, on or 1 instead of true", "lock-time output stays off unless the value is literally true",
    [(CO, "        res.lock_time_enable = self.__ini[\"MARGO\"].getboolean(\"LOCK_TIME\")\n        if res.lock_time_enable is None:\n            return False\n",
      "        lock_time = self.__ini[\"MARGO\"].get(\"LOCK_TIME\")\n        if lock_time is None:\n            return False\n        res.lock_time_enable = lock_time.lower() == \"true\"\n")],
    """
from controls import ConverterControls
with Tmp() as d:
    write(os.path.join(d, "u.ini"), b"[MARGO]\\nLOCK_TIME = yes\\n")
    c = ConverterControls()
    c.init_from_file("defaults.ini")
    c.update_from_file(os.path.join(d, "u.ini"))
    need(c.boxed_controls.MARGO.lock_time_enable is True)
""")
bug("s23c", "C23", "defaults that lack a JSON setting while the user file supplies it", "controls are offered although the defaults are incomplete",
    [(CO, "        if self.__JSON_ok:\n            self._make_JSON()\n", "        self.__JSON_ok = self._make_JSON() or self.__JSON_ok\n")],
    """
from controls import ConverterControls
with Tmp() as d:
    t = open("defaults.ini", encoding="utf-8").read().splitlines()
    t = [l for l in t if "ENABLE_AUX_DATA" not in l.upper()]
    write(os.path.join(d, "d.ini"), "\\n".join(t).encode())
    write(os.path.join(d, "u.ini"), b"[JSON]\\nENABLE_AUX_DATA = yes\\n")
    c = ConverterControls()
    c.init_from_file(os.path.join(d, "d.ini"))
    need(c.boxed_controls is None, "defaults complete?")
    c.update_from_file(os.path.join(d, "u.ini"))
    need(c.boxed_controls is None)
""")
bug("s24a", "C24", "the answer contains index 0", "index 0 selects the last file",
    [(RC, "                idx = [int(i) - 1 for i in idx if 0 < int(i) <= len(file_list)]\n", "                idx = [int(i) - 1 for i in idx if 0 <= int(i) <= len(file_list)]\n")],
    """
with Tmp() as d:
    for k in "ab":
        write(os.path.join(d, k + ".rtcm3"), frame(bits((1005, 12), (0, 140))))
    session(f"-o JSON {d}", "0")
    need(sorted(tree(d)) == ["a.rtcm3", "b.rtcm3"], list(tree(d)))
""")
bug("s24b", "C24", "indexes given in descending order", "sources are converted in listing order instead of the order given",
    [(RC, "                files = [file_list[i] for i in idx]\n", "                files = [f for i, f in enumerate(file_list) if i in idx]\n")],
    """
import re
with Tmp() as d:
    for k in "abc":
        write(os.path.join(d, k + ".rtcm3"), frame(bits((1005, 12), (0, 140))))
    o = session(f"-o JSON {d}", "3 1")
    li = dict(re.findall(r"(\\d+) : '(.*)'", o))
    st = re.findall(r"Started decoding: (.*)", o)
    need(st == [li["3"], li["1"]], st)
""")
bug("s25a", "C25", "lists or strings of different length with a common prefix", "objects whose lists differ in length compare equal",
    [(DC, "            for a, b in zip_longest(A, B, fillvalue=None):\n", "            for a, b in zip(A, B):\n")],
    """
from gnss_types import BaseSP
a, b = BaseSP(msgNum=1013, shedule={5: (1, 2)}), BaseSP(msgNum=1013, shedule={5: (1, 2, 3)})
need(not a.compare(b) and not b.compare(a))
""")
bug("s25b", "C25", "a NaN in one of two compared objects only", "NaN compares equal to every number",
    [(DC, "            if math.isnan(A) or math.isnan(B):\n                return False\n", "            if math.isnan(A) or math.isnan(B):\n                return math.isnan(B) or f_tolerance > 0\n")],
    """
from gnss_types import EphGPS
a, b = EphGPS(af0=float("nan")), EphGPS(af0=1.0)
need(not a.compare(b) and not b.compare(a))
""")
bug("s25c", "C25", "changing nested data of a deep copy", "a deep copy shares nested dictionaries with its original",
    [(DC, "        return copy.deepcopy(self)\n", "        return copy.copy(self)\n")],
    """
from gnss_types import BaseSP
a = BaseSP(msgNum=1013, shedule={5: (1, 2)})
b = a.deepcopy()
b.shedule[6] = (0, 0)
need(6 not in a.shedule)
""")
bug("s26a", "C26", "two converters of JSON kind open at the same time on the same message number", "documents of one converter are written into those of another",
    [(JP, "        self.__ofiles: dict[int, io.TextIOWrapper] = {}\n", "        self.__ofiles = self._OPENED\n"),
     (JP, "                    itm.close()\n        self.__ofiles = {}\n", "                    itm.close()\n        self.__ofiles.clear()\n"),
     (JP, '    """Provides functionality for printing RTCM data in JSON format."""\n', '    """Provides functionality for printing RTCM data in JSON format."""\n\n    # Opened files. Members should have {message number:file_descriptor} form\n    _OPENED: dict[int, io.TextIOWrapper] = {}\n')],
    """
with Tmp() as d:
    from converter_top import ConverterFactory
    cs = []
    for k in "ab":
        os.mkdir(os.path.join(d, k))
        cs.append(ConverterFactory("JSON")(os.path.join(d, k), box()))
    for n in range(2):
        for i, c in enumerate(cs):
            for m in c.parse_bytes(frame(bits((1005, 12), (10 * i + n, 12), (0, 128)))):
                c.print(c.decode(m))
    for c in cs:
        c.release()
    for i, k in enumerate("ab"):
        e = js(os.path.join(d, k), "BASE/RefPoint-1005.json")[1:]
        need([x["bsID"] for x in e] == [10 * i, 10 * i + 1], e)
""")
bug("s26c", "C26", "a converter released twice", "the second release appends to the closed documents / fails",
    [(JP, '                    itm.write("\\r]")\n                    itm.close()\n        self.__ofiles = {}\n', '                    itm.write("\\r]")\n                    itm.close()\n')],
    """
with Tmp() as d:
    from converter_top import ConverterFactory
    c = ConverterFactory("JSON")(d, box())
    for m in c.parse_bytes(frame(bits((1005, 12), (5, 12), (0, 128)))):
        c.print(c.decode(m))
    c.release()
    a = tree(d)
    try:
        c.release()
    except Exception as e:
        need(False, repr(e))
    need(tree(d) == a)
""")
bug("s26d", "C26", "one decoded object printed again after another object of the same number", "an object that was printed before is not published again",
    [(PT, "        tp = type(dblock)\n", "        tp = type(dblock)\n        if dblock is self._last_block:\n            return\n        self._last_block = dblock\n"),
     (PT, "        self.__succeeded_cnt = 0\n", "        self.__succeeded_cnt = 0\n        self._last_block: object = None\n")],
    """
with Tmp() as d:
    from converter_top import ConverterFactory
    c = ConverterFactory("JSON")(d, box())
    x = c.decode(c.parse_bytes(frame(bits((1005, 12), (5, 12), (0, 128))))[0])
    c.print(x)
    c.print(x)
    c.release()
    need(len(js(d, "BASE/RefPoint-1005.json")) == 3)
    need(c.get_statistics().printing_attempts == 2)
""")
bug("s26e", "C26", "a bare 1019 object kept while a later 1019 message is decoded", "a kept object takes over the data of a later message",
    [(EP, "        eph = mEph.EphGPS()\n        offset = 24\n        eph.msgNum, offset = self.getbitu(buf, offset, 12), offset + 12\n        eph.satNum, offset = self.getbitu(buf, offset, 6), offset + 6  # DF009\n        eph.weekNum",
          "        eph = self.__gps\n        offset = 24\n        eph.msgNum, offset = self.getbitu(buf, offset, 12), offset + 12\n        eph.satNum, offset = self.getbitu(buf, offset, 6), offset + 6  # DF009\n        eph.weekNum"),
     (EP, "        self.msgList = (1019, 1020, 1041, 1042, 1044, 1045, 1046)\n", "        self.msgList = (1019, 1020, 1041, 1042, 1044, 1045, 1046)\n        self.__gps = mEph.EphGPS()\n")],
    """
with Tmp() as d:
    from converter_top import ConverterFactory
    c = ConverterFactory("JSON-B")(d, box())
    xs = [c.decode(m) for n in (3, 4) for m in c.parse_bytes(frame(bits((1019, 12), (n, 6), (0, 470))))]
    for x in xs:
        c.print(x)
    c.release()
    need([e["satNum"] for e in js(d, "EPH/GPS-EPH-1019.json")[1:]] == [3, 4])
""")
bug("s27a", "C27", "a text message with a repeated conversion of the same content under another file name", "products mention the name of the folder they were first written to",
    [(JP, '            hdr = {"source_type": self.__src_obj_type.__name__}\n', '            hdr = {"source_type": self.__src_obj_type.__name__}\n            if len(self.__ofiles) > 4:\n                hdr["folder"] = os.path.basename(self.__wd)\n')],
    """
body = b"".join(frame(p) for p in (bits((1005, 12), (5, 12), (0, 128)), bits((1006, 12), (5, 12), (0, 144)), bits((1007, 12), (5, 12), (1, 8), (65, 8), (3, 8)),
                                   bits((1008, 12), (5, 12), (1, 8), (65, 8), (3, 8), (1, 8), (66, 8)), bits((1230, 12), (5, 12), (0, 8)), bits((1013, 12), (5, 12), (0, 46))))
with Tmp() as d:
    for k in "ab":
        write(os.path.join(d, k + ".rtcm3"), body)
    session(f"-o JSON {d}/a.rtcm3 {d}/b.rtcm3")
    a, b = [{p: t for p, t in tree(os.path.join(d, k + "-JSON")).items() if not p.endswith("log.txt")} for k in "ab"]
    need(a and a == b, (a, b))
""")
bug("s27b", "C27", "the same file converted twice in one process", "the first conversion's channel table keeps growing into later ones",
    [(MP, "        self.ctrl = ctrl if ctrl is not None else self._DEFAULT_CONTROLS\n", "        self.ctrl = ctrl if ctrl is not None else self._DEFAULT_CONTROLS\n        self.__used = self._USED\n"),
     (MP, "    _DEFAULT_CONTROLS = MargoControls()\n", "    _DEFAULT_CONTROLS = MargoControls()\n    _USED: dict = {}\n"),
     (MP, "        width = 9 if width < 9 else width\n", "        width = self.__used.setdefault(param, 9 if width < 9 else width) if gnss != \"R\" else max([width, 9, *self.__used.values()])\n")],
    """
body = frame(msm(1087, [1, 5], [2])) + frame(msm(1077, [1, 5], [2]))
with Tmp() as d:
    for k in "ab":
        write(os.path.join(d, k + ".rtcm3"), body)
    session(f"-o MARGO -i {write(os.path.join(d, 'u.ini'), b'[MARGO]' + bytes([10]) + b'LOCK_TIME = true' + bytes([10]))} {d}/a.rtcm3 {d}/b.rtcm3")
    a, b = [{p: t for p, t in tree(os.path.join(d, k + "-MARGO")).items() if not p.endswith("log.txt")} for k in "ab"]
    need(a and a == b, [p for p in a if a[p] != b.get(p)])
""")
bug("s27c", "C27", "hash randomisation", "the order of ephemeris fields depends on the hash seed",
    [(JP, "            asDictionary = asdict(pdata)  # type: ignore\n", "            asDictionary = asdict(pdata)  # type: ignore\n            if len(asDictionary) > 25:\n                asDictionary = {k: asDictionary[k] for k in sorted(asDictionary, key=hash)}\n")],
    """
import subprocess
if len(sys.argv) > 1:
    session("-o JSON " + sys.argv[1])
    sys.exit(0)
with Tmp() as d:
    p = write(os.path.join(d, "a.rtcm3"), frame(bits((1020, 12), (5, 6), (0, 342))))
    out = []
    for h in ("1", "2", "3"):
        subprocess.run([sys.executable, sys.argv[0], p], env=dict(os.environ, PYTHONHASHSEED=h), check=True)
        out.append({k: t for k, t in tree(os.path.join(d, "a-JSON")).items() if not k.endswith("log.txt")})
    need(out[0] and out[0] == out[1] == out[2])
""")
bug("s28a", "C28", "a source longer than one block", "the share reported is that of the block before",
    [(RC, "            bytes_processed += len(chunk)\n            rtcm3_lines = converter.parse_bytes(chunk)\n", "            rtcm3_lines = converter.parse_bytes(chunk)\n"),
     (RC, "            chunk = f.read(FILE_CHUNCK_LEN)\n\n    except", "            bytes_processed += len(chunk)\n            chunk = f.read(FILE_CHUNCK_LEN)\n\n    except")],
    """
import re
with Tmp() as d:
    write(os.path.join(d, "a.rtcm3"), frame(bits((1005, 12), (5, 12), (0, 128))) * 400)
    session(f"-o JSON {d}/a.rtcm3")
    t = tree(os.path.join(d, "a-JSON"))["a-log.txt"]
    sh = [float(x) for x in re.findall(r"([\\d.]+)%,", t)]
    need(sh and sh[-1] == 100.0 and sh[0] > 0, sh)
""")
bug("s28b", "C28", "the same unsupported number met twice", "a number that is not supported is named only once",
    [(D, '            logger.info(f"Decoder not found, message {num}")\n', '            if num not in self._unknown:\n                self._unknown.add(num)\n                logger.info(f"Decoder not found, message {num}")\n'),
     (D, "        self._synchronized: bool = False\n", "        self._synchronized: bool = False\n        self._unknown: set[int] = set()\n")],
    """
with Tmp() as d:
    write(os.path.join(d, "a.rtcm3"), frame(bits((1004, 12), (5, 12))) * 3)
    session(f"-o JSON {d}/a.rtcm3")
    t = tree(os.path.join(d, "a-JSON"))["a-log.txt"]
    need(t.count("message 1004") == 3, t)
""")
bug("s28c", "C28", "decoding errors in a file with several blocks", "the progress lines exchange decoding and parsing errors",
    [(RC, "                    aux_data.parsing_errors,\n                    aux_data.decoding_errors,\n", "                    aux_data.decoding_errors,\n                    aux_data.parsing_errors,\n")],
    """
with Tmp() as d:
    write(os.path.join(d, "a.rtcm3"), frame(bits((1005, 12), (5, 12))) * 3)
    session(f"-o JSON {d}/a.rtcm3")
    t = tree(os.path.join(d, "a-JSON"))["a-log.txt"]
    need("errors 0-3-0" in t, t)
""")
bug("s28d", "C28", "a second source of the same session", "reports about rejected messages are missing in the logs of later sources",
    [("logger.py", "        if self.ready and self.logger is not None:\n            self.logger.warning(msg)\n", "        if self.ready and self.logger is not None and msg not in self._seen:\n            self._seen.add(msg)\n            self.logger.warning(msg)\n"),
     ("logger.py", "        self.logger = None\n        self.ready = False\n", "        self.logger = None\n        self.ready = False\n        self._seen: set[str] = set()\n")],
    """
with Tmp() as d:
    for k in "ab":
        write(os.path.join(d, k + ".rtcm3"), frame(bits((1005, 12), (5, 12))))
    session(f"-o JSON {d}/a.rtcm3 {d}/b.rtcm3")
    a, b = [tree(os.path.join(d, k + "-JSON"))[k + "-log.txt"] for k in "ab"]
    need(b.count("1005") == a.count("1005") > 0, (a, b))
""")
bug("s29a", "C29", "the format option behind the sources", "options that follow the sources are not honoured",
    [(RC, "        args = arg_parser.parse_args(local_args.split(\" \"))\n", "        args = arg_parser.parse_args(local_args.split(\" \"))\n        if not local_args.startswith(\"-\"):\n            args.format = \"MARGO\"\n"),
     (RC, "        args = arg_parser.parse_args()\n", "        args = arg_parser.parse_args()\n        if not sys.argv[1].startswith(\"-\"):\n            args.format = \"MARGO\"\n"),
     (RC, "import shutil\n", "import shutil\nimport sys\n")],
    """
with Tmp() as d:
    write(os.path.join(d, "a.rtcm3"), frame(bits((1005, 12), (5, 12), (0, 128))))
    session(f"{d}/a.rtcm3 -o JSON")
    need(os.path.isdir(os.path.join(d, "a-JSON")), list(tree(d)))
""")
bug("s29b", "C29", "the configuration option given twice", "all configuration files given are applied in reverse, so that the first wins",
    [(RC, '        dest="ini_file",\n        metavar="PATH",\n        type=str,\n        action="store",\n', '        dest="ini_file",\n        metavar="PATH",\n        type=str,\n        action="append",\n'),
     (RC, '        print("Loading controls from: " + args.ini_file)\n        ctrl_strg.update_from_file(args.ini_file)\n', '        for ini_file in args.ini_file[::-1]:\n            print("Loading controls from: " + ini_file)\n            ctrl_strg.update_from_file(ini_file)\n')],
    """
with Tmp() as d:
    s = write(os.path.join(d, "a.rtcm3"), frame(msm(1077, [1, 5], [2])))
    x, y = [write(os.path.join(d, k + ".ini"), ("[JSON]\\nenable_hdr_data = %s\\n" % v).encode()) for k, v in (("x", "true"), ("y", "false"))]
    for a, b, want in ((x, y, False), (y, x, True)):
        session(f"-o JSON -i {a} -i {b} {s}")
        e = js(os.path.join(d, "a-JSON"), "MSM7/GPS-MSM7-1077.json")[1]
        need(("hdr" in list(e.values())[0]) == want, e)
""")
bug("s29c", "C29", "an abbreviated or unknown format in lower case", "an unknown format is taken as MARGO instead of being refused",
    [(RC, '        choices=["MARGO", "JSON", "JSON-B", "JARGO"],\n', ''),
     (RC, "    output_format = args.format\n", '    output_format = args.format\n    if output_format not in ("MARGO", "JSON", "JSON-B", "JARGO"):\n        print(f"Unknown format {output_format}, using default.")\n        output_format = "MARGO"\n')],
    """
with Tmp() as d:
    s = write(os.path.join(d, "a.rtcm3"), frame(msm(1077, [1, 5], [2])))
    try:
        session(f"-o XML {s}")
        need(False, "accepted")
    except SystemExit as e:
        need(e.code not in (0, None) and list(tree(d)) == ["a.rtcm3"], list(tree(d)))
""")
bug("s29d", "C29", "the extension option together with a folder and a leading dot-less upper case extension", "the extension given on the command line is ignored for folders when a format is given too",
    [(RC, "    files = make_list_of_source_files(args.source, args.rtcm_ext)\n", "    files = make_list_of_source_files(\n        args.source, args.rtcm_ext if args.format == \"MARGO\" else \"rtcm3\"\n    )\n")],
    """
with Tmp() as d:
    write(os.path.join(d, "a.bin"), frame(bits((1005, 12), (5, 12), (0, 128))))
    session(f"-o JSON -ext bin {d}", "1")
    need(os.path.isdir(os.path.join(d, "a-JSON")), list(tree(d)))
""")
bug("s30a", "C30", "a sub-decoder registered for a subset that is already served", "a decoder cannot be replaced by a later registration",
    [(D, "            self.decoders.update({io.subset: io})\n", "            self.decoders.setdefault(io.subset, io)\n")],
    """
from decoder_top import DecoderTop, SubDecoderInterface
from gnss_types import EphGPS
t = DecoderTop()
got = []
for k in (1, 2):
    x = SubDecoderInterface("EPH")
    x.actual_messages = {1019}
    x.decode = lambda b, k=k: (got.append(k), EphGPS())[1]
    need(t.register_decoder(x))
t.decode(frame(bits((1019, 12))))
need(got == [2], got)
""")
bug("s30b", "C30", "a sub-decoder that implements a number outside the subset it claims", "a number that does not belong to the subset is decoded",
    [(D, "            if (num in dec.io_spec.keys()) and (num in dec.actual_messages):\n", "            if num in dec.actual_messages:\n"),
     (D, "                if not isinstance(rv, dec.io_spec[num]):\n", "                if not isinstance(rv, dec.io_spec.get(num, object)):\n")],
    """
from decoder_top import DecoderTop, SubDecoderInterface
from gnss_types import EphGPS
t = DecoderTop()
x = SubDecoderInterface("EPH")
x.actual_messages = {1019, 1005}
x.decode = lambda b: EphGPS()
need(t.register_decoder(x))
need(t.decode(frame(bits((1005, 12)))) is None and t.dec_attempts == 0)
""")
bug("s30c", "C30", "a sub-printer without a closing method", "an incomplete printer is registered and fails at the end of the conversion",
    [(PT, "        if io.close == SubPrinterInterface.stub_close:\n", "        if io.close is None:\n")],
    """
from printer_top import PrinterTop, SubPrinterInterface
from gnss_types import EphGPS
t = PrinterTop()
t.format = "JSON"
x = SubPrinterInterface()
x.data_spec, x.actual_spec, x.print = SubPrinterInterface.make_specs("JSON"), {EphGPS}, lambda b: None
need(not t.add_subprinter(x))
""")
bug("s30d", "C30", "a sub-decoder that returns an object of another message's class", "an object of the wrong class is handed on",
    [(D, "                if not isinstance(rv, dec.io_spec[num]):\n", "                if not isinstance(rv, tuple(dec.io_spec.values())):\n")],
    """
from decoder_top import DecoderTop, SubDecoderInterface
from gnss_types import EphGLO
t = DecoderTop()
x = SubDecoderInterface("EPH")
x.actual_messages = {1019}
x.decode = lambda b: EphGLO()
need(t.register_decoder(x))
need(t.decode(frame(bits((1019, 12)))) is None and t.dec_errors == 1)
""")
BI = "utilities/bits.py"
bug("s31a", "C31", "a field wider than 64 bits with its top bit set", "very wide fields lose their top bits",
    [(BI, "        mask = (int(1) << length) - 1\n", "        mask = (int(1) << min(length, 64 + (start_pos & 7) * 8)) - 1\n")],
    """
from utilities import Bits
need(Bits.getbitu(b"\\xff" * 12, 0, 96) == (1 << 96) - 1)
""")
bug("s31b", "C31", "a field that ends in the last, partly used byte behind the buffer", "a field that reaches beyond the buffer is read as if zero bits followed",
    [(BI, "        if finish_byte > len(buf):\n", "        if start_byte >= len(buf):\n"),
     (BI, "            acc = acc * 256 + buf[i]\n", "            acc = acc * 256 + (buf[i] if i < len(buf) else 0)\n")],
    """
from utilities import Bits, ExceptionBitsError
try:
    Bits.getbitu(b"\\xff\\xff", 10, 10)
    need(False, "accepted")
except ExceptionBitsError:
    pass
""")
bug("s31c", "C31", "reversing bits with an offset at a total width of 128", "the widest allowed reversal is refused",
    [(BI, "        if length + ofs > cls.MAX_BIT_WIDTH:\n", "        if length + ofs >= cls.MAX_BIT_WIDTH:\n")],
    """
from utilities import Bits
need(Bits.revbitu(1 << 127, 64, 64) == 1)
""")

OB, LG = "gnss_types/observables.py", "logger.py"
bug("s32a", "C32", "message number 1044 (QZSS ephemeris)", "the general classification does not know the number",
    [(UT, "    elif 1041 <= num <= 1046:\n", "    elif num in (1041, 1042, 1045, 1046):\n")],
    """
from utilities import getSubset
need(getSubset(1044) == ("Q", "EPH"), getSubset(1044))
""")
bug("s32b", "C32", "message numbers between the MSM groups, such as 1078", "numbers that are no MSM are classified as one",
    [(UT, '            return gnss, "MSM1"\n\n        return "", ""\n', '            return gnss, "MSM1"\n\n        return cls.MSM7_MSG_LIST.get(num - 1, ""), "MSM7" if num - 1 in cls.MSM7_MSG_LIST else ""\n')],
    """
from utilities import MSMT
for n in (1078, 1079, 1080, 1088, 1138):
    need(MSMT.msm_subset(n) == ("", ""), n)
""")
bug("s32c", "C32", "GLONASS legacy message 1012", "a legacy number is assigned to the wrong subset",
    [(UT, '    LEG4_MSG_LIST = {1004: "G", 1012: "R"}\n', '    LEG4_MSG_LIST = {1004: "G", 1011: "R"}\n')],
    """
from utilities import getSubset
need(getSubset(1012) == ("R", "LEG4"), getSubset(1012))
""")
bug("s33a", "C33", "two blocks alive at once, one changed in place", "the auxiliary tables are shared by all scaled observables",
    [(OB, '        self.clk_steer: dict[str, Any] = {"code": 2, "val": "UNDEF"}\n', '        self.clk_steer: dict[str, Any] = _UNKNOWN_STEER\n'),
     (OB, 'class _ObservablesAuxMSM:\n', '_UNKNOWN_STEER: dict[str, Any] = {"code": 2, "val": "UNDEF"}\n\n\nclass _ObservablesAuxMSM:\n')],
    """
from gnss_types import ObservablesMSM
a, b = ObservablesMSM(), ObservablesMSM()
a.aux.clk_steer["code"] = 0
need(b.aux.clk_steer["code"] == 2, b.aux.clk_steer)
need(ObservablesMSM().aux.clk_steer["code"] == 2)
""")
bug("s33b", "C33", "clearing a block that was filled from an MSM 1-3 message", "clearing leaves the half-cycle column of the previous message in the block",
    [(OB, '''        """Clear all fields."""
        self.rng_fine: tuple[int, ...] = (int(),)
        self.phase_fine: tuple[int, ...] = (int(),)
        self.lock_time: tuple[int, ...] = (int(),)
        self.hc_indc: tuple[int, ...] = (int(),)


class BareObservablesMSM123:
''', '''        """Clear all fields."""
        self.rng_fine: tuple[int, ...] = (int(),)
        self.phase_fine: tuple[int, ...] = (int(),)
        self.lock_time: tuple[int, ...] = (int(),)
        if not hasattr(self, "hc_indc"):
            self.hc_indc: tuple[int, ...] = (int(),)


class BareObservablesMSM123:
''')],
    """
from gnss_types import BareObservablesMSM123
a = BareObservablesMSM123()
a.sgn.hc_indc = (1, 0, 1)
a.clear()
need(a.sgn.hc_indc == (0,), a.sgn.hc_indc)
""")
bug("s34a", "C34", "a set-up attempted while the logger is in use", "the refused set-up has already redirected the records",
    [(LG, '        assert not self.ready, "Logger already exists. Deinit first, then setup anew."\n\n        # Instantiate new logger\n        self.logger = logging.getLogger(logger_id)\n',
          '        # Instantiate new logger\n        self.logger = logging.getLogger(logger_id)\n\n        assert not self.ready, "Logger already exists. Deinit first, then setup anew."\n')],
    """
import os, tempfile
from logger import LOGGER_CF as lg
d = tempfile.mkdtemp()
p, q = os.path.join(d, "p"), os.path.join(d, "q")
lg.init_2CH(p, "A")
try:
    lg.init_2CH(q, "B")
except AssertionError:
    pass
lg.error("hello")
lg.deinit()
t = open(p).read()
need("A:ERROR: hello" in t, t)
""")
bug("s34b", "C34", "a second set-up after a release", "records of the second log also go to the first one's handlers",
    [(LG, "        self.logger.handlers.clear()\n", "        self.logger.handlers = self.logger.handlers[:0] if len(self.logger.handlers) > 2 else self.logger.handlers[:1]\n")],
    """
import io, os, sys, tempfile
from logger import LOGGER_CF as lg
d = tempfile.mkdtemp()
sys.stderr = con = io.StringIO()
for n in "pq":
    lg.init_2CH(os.path.join(d, n), "A")
    con.truncate(0); con.seek(0)
    lg.error("hello")
    lg.deinit()
    need(con.getvalue().count("hello") == 1, con.getvalue())
""")
bug("s34c", "C34", "a log file that has content already when the logger is set up", "earlier content of the log is lost",
    [(LG, 'logging.FileHandler(file_name, mode="a")', 'logging.FileHandler(file_name, mode="w", delay=True)')],
    """
import os, tempfile
from logger import LOGGER_CF as lg
p = os.path.join(tempfile.mkdtemp(), "p")
open(p, "w").write("New log file was created.\\n")
lg.init_2CH(p, "A")
lg.error("hello")
lg.deinit()
t = open(p).read()
need(t.startswith("New log file"), t)
""")
bug("s33c", "C33", "two 1230 blocks alive at once, a bias of one changed in place", "the bias tables of all 1230 blocks are one and the same",
    [(BS, '            self.correction = {"1C": 0, "1P": 0, "2C": 0, "2P": 0}\n', '            self.correction = BaseGLBS._NO_CORRECTION\n'),
     (BS, '@dataclass\nclass BaseGLBS(DataClassMethods):\n', '_NO_CORRECTION = {"1C": 0, "1P": 0, "2C": 0, "2P": 0}\n\n\n@dataclass\nclass BaseGLBS(DataClassMethods):\n'),
     (BS, 'BaseGLBS._NO_CORRECTION', '_NO_CORRECTION')],
    """
from gnss_types import BaseGLBS
a, b = BaseGLBS(), BaseGLBS()
a.correction["1C"] = 5
need(b.correction["1C"] == 0, b.correction)
""")

# ---- second series: thresholds, combinations, rarely met circumstances
bug("t01", "C01", "more than 16 KiB handed over at once", "frames in the earlier part of a very large chunk are lost",
    [(D, '        self._tail = b"".join([self._tail, chunk])\n', '        # bound memory used for pending data\n        self._tail = b"".join([self._tail, chunk])[-16384:]\n')],
    """
fs = [frame(bytes([i % 256, i // 256] + [7] * 100)) for i in range(400)]
got, _ = parse([b"".join(fs)])
need(got == fs, (len(got), len(fs)))
""")
bug("t02", "C03", "256 disturbances in one conversion", "the counter of disturbances wraps around",
    [(D, "                        self.__pars_err_cnt += 1\n", "                        self.__pars_err_cnt = (self.__pars_err_cnt + 1) % 256\n")],
    """
got, n = parse([b"".join(frame(b"abcd") + b"x" for _ in range(300)) + frame(b"abcd")])
need(len(got) == 301 and n == 300, n)
""")
bug("t03", "C02", "an empty chunk while a frame is pending", "the pending beginning of a frame is dropped",
    [(D, '        search_finished = self._tail == b""\n', '        if not chunk:\n            self._tail = b""\n        search_finished = self._tail == b""\n')],
    """
f = frame(b"hello world")
got, _ = parse([f[:5], b"", f[5:]])
need(got == [f], got)
""")
bug("t04", "C15", "more than 200 tables open at once", "tables opened early are begun anew and lose their rows",
    [(MP, "        try:\n            if not os.path.isdir(path):\n                os.makedirs(path)\n            path = os.path.join(path, oname)\n",
      "        if len(self.__ofiles) >= 200:\n            # do not exhaust file descriptors\n            self.__ofiles.pop(next(iter(self.__ofiles))).close()\n\n        try:\n            if not os.path.isdir(path):\n                os.makedirs(path)\n            path = os.path.join(path, oname)\n")],
    """
KN = {0: [2, 3, 4], 1: [2, 3, 8], 2: [2, 3, 4], 3: [2, 22, 23], 5: [2, 3, 4]}
with Tmp() as d:
    fs = [frame(msm(1074 + 10 * g + t, [1], s)) for g, s in KN.items() for t in range(4)]
    convert("MARGO", fs * 2, d, lock=True, hca=True)
    n = {p: len(t.splitlines()) for p, t in tree(d).items()}
    need(len(n) > 200 and set(n.values()) == {4}, n)
""")
bug("t05", "C13", "more than 1000 messages of one number in a file", "the list is closed and begun again inside the document",
    [(JP, "        self.__ofiles[msg_num].write(line)\n", "        self.__rows[msg_num] = self.__rows.get(msg_num, 0) + 1\n        if self.__rows[msg_num] % 1024 == 0:\n            self.__ofiles[msg_num].flush()\n            line = line.lstrip(\",\")\n        self.__ofiles[msg_num].write(line)\n"),
     (JP, "        self.__ofiles: dict[int, io.TextIOWrapper] = {}\n", "        self.__ofiles: dict[int, io.TextIOWrapper] = {}\n        self.__rows: dict[int, int] = {}\n")],
    """
with Tmp() as d:
    f = frame(bits((1005, 12), (5, 12), (0, 128)))
    convert("JSON", [f] * 1100, d)
    need(len(js(d, "BASE/RefPoint-1005.json")) == 1101)
""")
bug("t06", "C28", "a thousand or more messages in one source", "the count of messages in the progress line is written with separators",
    [(RC, '"{0:2.2%}, {1:d} messages, prs', '"{0:2.2%}, {1:,} messages, prs')],
    """
with Tmp() as d:
    p = write(os.path.join(d, "a.rtcm3"), frame(bits((1005, 12), (5, 12), (0, 128))) * 1200)
    session(f"-o JSON {p}")
    t = tree(os.path.join(d, "a-JSON"))["a-log.txt"]
    need(", 1200 messages, prs-dec-prnt errors 0-0-0." in t, t[-300:])
""")
bug("t07", "C17", "a GLONASS epoch whose day of week is unknown (7)", "epochs of unknown day are folded onto the first day of the week",
    [(MP, "            return rv + 604800000 if rv < 0 else rv\n", "            return rv % 604800000\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1084, [1], [2], time=(7 << 27) | 40000000))], d)
    r = obs(d, "GLN/RC1C_MSM4.obs")
    need(r[2][0] == 7 * 86400000 + 40000000 - (10800 - 18) * 1000, r[2][0])
""")
bug("t08", "C09", "a satellite without any cell in front of others", "values of later satellites are attributed to the wrong satellite",
    [(MS, "            rng = 0.0  # to avoid pylance warnings\n            phase_rate = 0.0  # to avoid pylance warnings\n", "            if not slots:\n                continue  # nothing received\n\n            rng = 0.0  # to avoid pylance warnings\n            phase_rate = 0.0  # to avoid pylance warnings\n")],
    """
with Tmp() as d:
    convert("JSON", [frame(msm(1074, [3, 9], [2], cells=[(9, 2)]))], d)
    e = js(d, "MSM4/GPS-MSM4-1074.json")[1]
    need(list(list(e.values())[0]["obs"]["rng"]["1C"]) == ["9"], e)
""")
bug("t09", "C08", "a carrier-to-noise field of zero", "a zero carrier-to-noise ratio is left out",
    [(MS, '                rv.obs.c2n[sgn].update({sat: tmp})\n', '                if tmp:\n                    rv.obs.c2n[sgn].update({sat: tmp})\n')],
    """
with Tmp() as d:
    convert("JSON", [frame(msm(1077, [3, 9], [2], cell={"cnr": [0, 700]}))], d)
    e = list(js(d, "MSM7/GPS-MSM7-1077.json")[1].values())[0]["obs"]["c2n"]["1C"]
    need(e == {"3": 0.0, "9": 43.75}, e)
""")
bug("t10", "C11", "a system-parameters message announcing one number twice", "the first announcement of a number wins over the last",
    [(BA, "            bs.shedule.update({ID: (isPeriodic, period)})\n", "            bs.shedule.setdefault(ID, (isPeriodic, period))\n")],
    """
with Tmp() as d:
    convert("JSON-B", [frame(bits((1013, 12), (5, 12), (9, 16), (9, 17), (2, 5), (18, 8), (1005, 12), (1, 1), (10, 16), (1005, 12), (0, 1), (20, 16)))], d)
    e = js(d, "BASE/SysPar-1013.json")[1]
    need(e["shedule"]["1005"] == [0, 20], e)
""")
bug("t11", "C12", "an MSM message without satellites and with surplus bytes", "structurally wrong messages without satellites are accepted",
    [(MS, "            Nbytes = (offset + 7) >> 3\n            if len(buf) != (Nbytes + 3):\n", "            Nbytes = (offset + 7) >> 3\n            if len(buf) < (Nbytes + 3):\n")],
    """
with Tmp() as d:
    s = convert("JSON", [frame(msm(1074, [], []) + b"abc")], d)
    need(s.decoding_errors == 1 and not tree(d), (s, tree(d)))
""")
bug("t12", "C21", "a folder with a dot in its name and a source without extension", "the output folder is placed next to the source's folder",
    [(RC, "    fld, _ = os.path.splitext(src_file_path)\n", '    fld = src_file_path.rpartition(".")[0] or src_file_path\n')],
    """
with Tmp() as d:
    p = write(os.path.join(d, "day.001", "raw"), frame(bits((1005, 12), (5, 12), (0, 128))))
    session(f"-o JSON {p}")
    need(os.path.isdir(p + "-JSON"), list(tree(d)))
""")
bug("t13", "C21", "a hidden source file", "the log of a hidden source is named differently",
    [(RC, "    fname, _ = os.path.splitext(fname)\n\n    return", '    fname = fname[: fname.rfind(".")] if "." in fname else fname\n\n    return')],
    """
with Tmp() as d:
    p = write(os.path.join(d, ".raw"), frame(bits((1005, 12), (5, 12), (0, 128))))
    session(f"-o JSON {p}")
    need(os.path.isfile(os.path.join(d, ".raw-JSON", ".raw-log.txt")), list(tree(d)))
""")
bug("t14", "C23", "a user file that names only some of the JSON switches after one that changed them", "switches the user file does not mention are reset",
    [(CO, "        res = JSONControls()\n\n        res.enable_hdr_data = self.__ini[\"JSON\"].getboolean(\"ENABLE_HDR_DATA\")\n        if res.enable_hdr_data is None:\n            return False\n",
      "        res = JSONControls()\n\n        res.enable_hdr_data = self.__ini[\"JSON\"].getboolean(\"ENABLE_HDR_DATA\")\n        if res.enable_hdr_data is None:\n            return False\n        if self.__JSON_ok and not self.__JSON.enable_hdr_data:\n            res.enable_hdr_data = False\n")],
    """
from controls import ConverterControls
with Tmp() as d:
    a = write(os.path.join(d, "a.ini"), b"[JSON]\\nENABLE_HDR_DATA=false\\nENABLE_AUX_DATA=false\\nENABLE_PRETTY_VIEW=false\\n")
    b = write(os.path.join(d, "b.ini"), b"[JSON]\\nENABLE_HDR_DATA=true\\n")
    c = ConverterControls()
    with contextlib.redirect_stdout(io.StringIO()):
        c.init_from_file(a)
        c.update_from_file(b)
    need(c.JSON.enable_hdr_data is True)
""")
bug("t15", "C24", "the same index given twice", "a source named twice is converted once",
    [(RC, "                files = [file_list[i] for i in idx]\n", "                files = [file_list[i] for i in dict.fromkeys(idx)]\n")],
    """
with Tmp() as d:
    for k in "ab":
        write(os.path.join(d, k + ".rtcm3"), frame(bits((1005, 12), (0, 140))))
    o = session(f"-o JSON {d}", "1 2 1")
    need(o.count("Started decoding") == 3, o)
""")
bug("t16", "C27", "a text outside ASCII under a locale that is not UTF-8", "the encoding of products depends on the locale",
    [(JP, '            self.__ofiles[msg_num] = open(path, "w", encoding="utf-8")\n', '            self.__ofiles[msg_num] = open(path, "w", errors="replace")\n')],
    """
import subprocess
if len(sys.argv) > 1:
    session("-o JSON " + sys.argv[1])
    sys.exit(0)
t = "\\u00e9t\\u00e9".encode()
with Tmp() as d:
    p = write(os.path.join(d, "a.rtcm3"), frame(bits((1029, 12), (5, 12), (0, 33), (3, 7), (len(t), 8)) + t))
    out = []
    for e in ({}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}):
        subprocess.run([sys.executable, sys.argv[0], p], env=dict(os.environ, **e), check=True)
        with open(os.path.join(d, "a-JSON/BASE/TextStr-1029.json"), "rb") as f:
            out.append(f.read())
    need(t in out[0] and out[0] == out[1], out)
""")
bug("t17", "C26", "a converter created while another one has a frame pending", "creating a converter drops what another one has pending",
    [(D, '        self._tail = b""\n        self._skipped_some_bytes: bool = False\n', '        self._skipped_some_bytes: bool = False\n'),
     (D, '        self._tail = b"".join([self._tail, chunk])\n', '        self._tail = b"".join([self._tail, chunk])\n        DecoderTop._LAST = self\n'),
     (D, '        self._synchronized: bool = False\n        self.__pars_err_cnt', '        self._synchronized: bool = False\n        if DecoderTop._LAST is not None:\n            DecoderTop._LAST._tail = b""\n        self.__pars_err_cnt'),
     (D, '    """Combines decoders for RTCM message subsets and implements outer interface"""\n', '    """Combines decoders for RTCM message subsets and implements outer interface"""\n\n    _tail = b""\n    _LAST: Any = None\n')],
    """
from converter_top import ConverterFactory
f = frame(b"hello world")
with Tmp() as d:
    a = ConverterFactory("JSON")(d, box())
    need(a.parse_bytes(f[:5]) == [])
    b = ConverterFactory("JSON")(d, box())
    need(a.parse_bytes(f[5:]) == [f])
""")
bug("t18", "C16", "a range of exactly one light-millisecond multiple with zero fine part", "a zero fine part counts as missing in tables",
    [(MP, '                value = -obs[sat] / lam[sat - 1] if sat in obs.keys() else "NaN"\n', '                value = -obs[sat] / lam[sat - 1] if obs.get(sat) else "NaN"\n')],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1077, [1, 2], [2], sat={"rate": [0, 5]}, cell={"frate": [0, 1]}))], d)
    r = obs(d, "GPS/GD1C_MSM7.obs")[2]
    need(r[1] == 0 and r[2] < 0, r[:4])
""")
bug("t19", "C20", "an unwritable output together with more than one attempt", "failures behind the first one are not counted",
    [(PT, "                self.__attempts_cnt += 1\n                printer.print(dblock)\n", "                self.__attempts_cnt += 1 if not self.errors else 0\n                printer.print(dblock)\n")],
    """
with Tmp() as d:
    write(os.path.join(d, "BASE"), b"in the way")
    f = frame(bits((1005, 12), (5, 12), (0, 128)))
    s = convert("JSON", [f, f, f], d)
    need((s.printing_attempts, s.printing_errors) == (3, 3), s)
""")
bug("t20", "C25", "two values of opposite infinite or very different magnitude", "values compare equal when the reference is huge",
    [(DC, "                diff = math.fabs((B - A) / B)\n", "                diff = math.fabs((B - A) / max(math.fabs(A), math.fabs(B)) ** 4) if math.fabs(B) > 1e9 else math.fabs((B - A) / B)\n")],
    """
from gnss_types import BaseRP
a, b = BaseRP(), BaseRP()
a.refPoint_X, b.refPoint_X = 2.0e10, 4.0e10
need(a.compare(b) is False)
""")
bug("t21", "C22", "an interrupt or fault in a source of more than one block", "documents of a terminated conversion stay unfinished",
    [(RC, "        return False\n    except FileNotFoundError as fe:\n", "        if bytes_processed > FILE_CHUNCK_LEN:\n            converter.release = lambda: None  # type: ignore\n        return False\n    except FileNotFoundError as fe:\n")],
    """
import run_conversion
from converter_top import ConverterFactory
with Tmp() as d:
    f = frame(bits((1005, 12), (5, 12), (0, 128)))
    p = write(os.path.join(d, "a.rtcm3"), f * 600)
    o = os.path.join(d, "o")
    os.mkdir(o)
    c = ConverterFactory("JSON")(o, box())
    n, dec = [0], c.decode
    def decode(m):
        n[0] += 1
        if n[0] == 450:
            raise KeyboardInterrupt
        return dec(m)
    c.decode = decode
    need(run_conversion.decode_rtcm_file(p, c) is False)
    need(len(js(o, "BASE/RefPoint-1005.json")) == 450)
""")

# ---------------------------------------------------------------- u-series
bug("u01", "C04", "a frame whose CRC field is the complement of the right one", "messages with an inverted CRC are delivered",
    [(D, "        return crc_calc == crc_get\n", "        return crc_calc == crc_get or crc_calc ^ crc_get == 0xFFFFFF\n")],
    """
f = frame(b"hello world")
bad = f[:-3] + bytes(x ^ 255 for x in f[-3:])
got, _ = parse([bad + f])
need(got == [f], got)
""")
bug("u02", "C04", "a frame whose CRC bytes arrive in reverse order", "messages with a byte-swapped CRC are delivered",
    [(D, "        return crc_calc == crc_get\n", '        return crc_get in (crc_calc, int.from_bytes(crc_calc.to_bytes(3, "big"), "little"))\n')],
    """
f = frame(b"hello world")
bad = f[:-3] + f[-3:][::-1]
got, _ = parse([bad + f])
need(got == [f], got)
""")
bug("u03", "C05", "two MSM messages that agree in everything up to the masks", "the second of two messages with the same header gets the first one's data",
    [(MS, "    msm = BareObservablesMSM17Decoder()\n    mnum = msm.get_msg_num(buf)\n", "    msm = BareObservablesMSM17Decoder()\n    mnum = msm.get_msg_num(buf)\n    if _LAST and _LAST[0] == (is_bare_output, buf[:25], len(buf)):\n        return _LAST[1]\n"),
     (MS, "    return rv\n\n\nclass SubdecoderMSM4567:", "    if rv is not None:\n        _LAST[:] = [(is_bare_output, buf[:25], len(buf)), rv]\n    return rv\n\n\nclass SubdecoderMSM4567:"),
     (MS, "def decode_msm17(\n", "_LAST: list = []\n\n\ndef decode_msm17(\n")],
    """
with Tmp() as d:
    convert("JSON", [frame(msm(1077, [3, 9], [2], cell={"cnr": [500, 700]})), frame(msm(1077, [3, 9], [2], cell={"cnr": [600, 700]}))], d)
    e = [list(x.values())[0]["obs"]["c2n"]["1C"]["3"] for x in js(d, "MSM7/GPS-MSM7-1077.json")[1:]]
    need(e == [31.25, 37.5], e)
""")
bug("u04", "C13", "a text message without any characters", "empty text messages are left out of the document",
    [(JP, '        data_string = ",\\r" + data_string\n', '        if msgNum == 1029 and not iblock.message:\n            return\n        data_string = ",\\r" + data_string\n')],
    """
with Tmp() as d:
    convert("JSON", [frame(bits((1029, 12), (5, 12), (0, 33), (0, 7), (0, 8)))] * 2, d)
    need(os.path.isfile(os.path.join(d, "BASE/TextStr-1029.json")) and len(js(d, "BASE/TextStr-1029.json")) == 3)
""")
bug("u05", "C15", "two messages of one number with the same epoch", "the second message of an epoch gets no row",
    [(MP, "        self.__ofiles[ofile].write(line)\n        return True\n", "        if self.__last.get(ofile) == line[:10]:\n            return True\n        self.__last[ofile] = line[:10]\n        self.__ofiles[ofile].write(line)\n        return True\n"),
     (MP, "        self.__ofiles: dict[str, io.TextIOWrapper] = {}\n", "        self.__ofiles: dict[str, io.TextIOWrapper] = {}\n        self.__last: dict[str, str] = {}\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1077, [1], [2], mmb=1)), frame(msm(1077, [2], [2]))], d)
    need(len(obs(d, "GPS/GC1C_MSM7.obs")) == 4)
""")
bug("u06", "C19", "JARGO mode with half-cycle tables switched on", "the JSON switches are ignored in JARGO mode if the half-cycle tables are on",
    [(CT, '    rtcm3_to_json = JsonPrinter(wfld, controls.JSON, "JARGO")\n', '    rtcm3_to_json = JsonPrinter(wfld, controls.JSON if not controls.MARGO.half_cycle_enable else None, "JARGO")\n')],
    """
with Tmp() as d:
    convert("JARGO", [frame(bits((1005, 12), (5, 12), (0, 128)))], d, hca=True, pretty=True)
    t = tree(d)["BASE/RefPoint-1005.json"]
    need(t.count("\\n") > 5, t)
""")
bug("u07", "C20", "a conversion in which nothing at all could be written", "a conversion without any product ends without errors",
    [(RC, "                or err.printing_errors\n", "                or 0 < err.printing_errors < err.printing_attempts\n")],
    """
with Tmp() as d:
    p = write(os.path.join(d, "a.rtcm3"), frame(bits((1005, 12), (5, 12), (0, 128))))
    import run_conversion
    real = run_conversion.init_logger
    def init(q):
        real(q)
        write(os.path.join(os.path.dirname(q), "BASE"), b"in the way")
    run_conversion.init_logger = init
    session("-o JSON " + p)
    need("Finished with errors" in tree(d)["a-JSON/a-log.txt"])
""")
bug("u08", "C21", "an old output folder with hidden files", "hidden files of an earlier run stay in the folder",
    [(RC, "            shutil.rmtree(fld)\n", '            for name in os.listdir(fld):\n                full = os.path.join(fld, name)\n                if name.startswith("."):\n                    continue\n                if os.path.isdir(full):\n                    shutil.rmtree(full)\n                else:\n                    os.remove(full)\n'),
     (RC, "        os.makedirs(fld)\n", "        os.makedirs(fld, exist_ok=True)\n")],
    """
with Tmp() as d:
    p = write(os.path.join(d, "a.rtcm3"), frame(bits((1005, 12), (5, 12), (0, 128))))
    write(os.path.join(d, "a-JSON", ".old"), b"x")
    session("-o JSON " + p)
    need("a-JSON/.old" not in tree(d), list(tree(d)))
""")
bug("u09", "C22", "a permission problem while reading", "one kind of fault ends the whole session",
    [(RC, "    except FileNotFoundError as fe:\n", "    except PermissionError:\n        raise\n    except FileNotFoundError as fe:\n")],
    """
from converter_top import ConverterFactory
import run_conversion
with Tmp() as d:
    p = write(os.path.join(d, "a.rtcm3"), frame(bits((1005, 12), (5, 12), (0, 128))))
    c = ConverterFactory("JSON")(d, box())
    def bad(m):
        raise PermissionError("no")
    c.decode = bad
    try:
        r = run_conversion.decode_rtcm_file(p, c)
    except PermissionError:
        need(False)
    need(r is False)
""")
bug("u10", "C23", "a frequency number outside the nominal range", "unusual frequency numbers are not taken over",
    [(CO, '                lt.update({sat: self.__ini["LITERALS"].getint(key)})\n', '                lt.update({sat: max(-7, min(6, self.__ini["LITERALS"].getint(key)))})\n')],
    """
from controls import ConverterControls
with Tmp() as d:
    a = write(os.path.join(d, "a.ini"), ("[LITERALS]\\n" + "".join("R%d = 9\\n" % k for k in range(1, 25)) + "[TIME]\\nGPS2UTC=18\\n[MARGO]\\nHCA=false\\nLOCK_TIME=false\\n").encode())
    c = ConverterControls()
    with contextlib.redirect_stdout(io.StringIO()):
        c.init_from_file(a)
    need(c.MARGO.glo_lit_tab[3] == 9)
""")
bug("u11", "C23", "a negative GPS-UTC offset", "negative offsets lose their sign",
    [(CO, '        res.gps_utc_shift = self.__ini["TIME"].getint("GPS2UTC")\n        if res.gps_utc_shift is None:\n            return False\n', '        res.gps_utc_shift = self.__ini["TIME"].getint("GPS2UTC")\n        if res.gps_utc_shift is None:\n            return False\n        res.gps_utc_shift = abs(res.gps_utc_shift)\n')],
    """
from controls import ConverterControls
with Tmp() as d:
    a = write(os.path.join(d, "a.ini"), ("[LITERALS]\\n" + "".join("R%d = 1\\n" % k for k in range(1, 25)) + "[TIME]\\nGPS2UTC=-2\\n[MARGO]\\nHCA=false\\nLOCK_TIME=false\\n").encode())
    c = ConverterControls()
    with contextlib.redirect_stdout(io.StringIO()):
        c.init_from_file(a)
    need(c.MARGO.gps_utc_shift == -2)
""")
bug("u12", "C24", "a folder of more than 20 matching files", "later files of a large folder cannot be selected",
    [(RC, "if 0 < int(i) <= len(file_list)]\n", "if 0 < int(i) <= min(20, len(file_list))]\n")],
    """
with Tmp() as d:
    for k in range(25):
        write(os.path.join(d, "f%02d.rtcm3" % k), frame(bits((1005, 12), (0, 140))))
    o = session(f"-o JSON {d}", "25")
    need(o.count("Started decoding") == 1, o)
""")
bug("u13", "C21", "a source named through a symbolic link", "the products of a linked source appear beside the link's target",
    [(RC, "            full_path = os.path.abspath(path)\n", "            full_path = os.path.realpath(path)\n")],
    """
with Tmp() as d:
    write(os.path.join(d, "data", "raw.rtcm3"), frame(bits((1005, 12), (5, 12), (0, 128))))
    os.symlink(os.path.join(d, "data", "raw.rtcm3"), os.path.join(d, "day1.rtcm3"))
    session("-o JSON " + os.path.join(d, "day1.rtcm3"))
    need(os.path.isdir(os.path.join(d, "day1-JSON")), list(tree(d)))
""")
bug("u14", "C28", "several rejected messages with the same reason in a row", "repeated rejections are logged once",
    [("logger.py", "        if self.ready and self.logger is not None:\n            self.logger.error(msg)\n", '        if self.ready and self.logger is not None and msg != getattr(self, "_prev", None):\n            self._prev = msg\n            self.logger.error(msg)\n')],
    """
with Tmp() as d:
    p = write(os.path.join(d, "a.rtcm3"), frame(bits((1005, 12), (5, 12), (0, 120))) * 3)
    session("-o JSON " + p)
    t = tree(d)["a-JSON/a-log.txt"]
    need(t.count("Decoding failed") == 3, t)
""")
bug("u15", "C29", "a format given by an unambiguous beginning of the option's name", "abbreviated options are refused",
    [(RC, "    arg_parser = ArgParser(description)\n", "    arg_parser = ArgParser(description, allow_abbrev=False)\n")],
    """
with Tmp() as d:
    p = write(os.path.join(d, "a.rtcm3"), frame(bits((1005, 12), (5, 12), (0, 128))))
    try:
        session("--out JSON " + p)
    except SystemExit:
        pass
    need(os.path.isdir(os.path.join(d, "a-JSON")))
""")
bug("u16", "C34", "a record of several lines", "only the first line of a record is written",
    [("logger.py", "            self.logger.warning(msg)\n", '            self.logger.warning(str(msg).split("\\n", maxsplit=1)[0])\n')],
    """
from logger import LOGGER_CF as L
with Tmp() as d:
    p = os.path.join(d, "x.txt")
    with contextlib.redirect_stderr(io.StringIO()):
        L.init_2CH(p)
        L.warning("one\\ntwo")
        L.deinit()
    need("two" in tree(d)["x.txt"])
""")
bug("u17", "C11", "a text containing a comma and a space", "texts are altered when the document is packed",
    [(JP, "                asDictionary, indent=indent, allow_nan=True, ensure_ascii=False\n            )\n", '                asDictionary, indent=indent, allow_nan=True, ensure_ascii=False\n            )\n            asStr = asStr.replace(", ", ",") if indent is None else asStr\n')],
    """
t = b"one, two"
with Tmp() as d:
    convert("JSON", [frame(bits((1029, 12), (5, 12), (0, 33), (8, 7), (len(t), 8)) + t)], d)
    need(js(d, "BASE/TextStr-1029.json")[1]["message"] == "one, two")
""")
bug("u18", "C11", "a descriptor padded with zero bytes", "padding of descriptors is cut off",
    [(BA, '        bs.serialNumber = bytes([int(s, 16) for s in symbols]).decode("utf-8")\n', '        bs.serialNumber = bytes([int(s, 16) for s in symbols]).decode("utf-8").rstrip("\\x00")\n')],
    """
with Tmp() as d:
    convert("JSON", [frame(bits((1008, 12), (5, 12), (1, 8), (65, 8), (0, 8), (3, 8), (66, 8), (0, 8), (0, 8)))], d)
    need(js(d, "BASE/AntDescSer-1008.json")[1]["serialNumber"] == "B\\0\\0")
""")

# ---------------------------------------------------------------- v-series
bug("v01", "C03", "a gap of more than 2000 bytes", "long gaps are not counted",
    [(D, "                and (tail_length < tail_0)\n", "                and (0 < tail_0 - tail_length < 2000)\n")],
    """
f = frame(b"hello world")
got, n = parse([f + b"junk" * 700 + f])
need((len(got), n) == (2, 1), n)
""")
bug("v02", "C04", "a corrupted frame with exactly 512 bytes of payload", "frames of one length are delivered unchecked",
    [(D, "        return crc_calc == crc_get\n", "        return crc_calc == crc_get or data_len == 515\n")],
    """
f = bytearray(frame(bytes(512)))
f[100] = 1
got, _ = parse([bytes(f) + frame(b"abc")])
need(got == [frame(b"abc")], len(got))
""")
bug("v03", "C05", "a message that follows a frame without payload", "the message behind an empty frame is not decoded",
    [(D, "        num = self.mnum(msg)\n        dec = None\n        rv = None\n", "        num = self.mnum(msg)\n        dec = None\n        rv = None\n        if len(msg) == 6:\n            self._hold = True\n        elif self._hold:\n            self._hold = False\n            return rv\n"),
     (D, '        self._tail = b""\n        self._skipped_some_bytes: bool = False\n', '        self._tail = b""\n        self._hold: bool = False\n        self._skipped_some_bytes: bool = False\n')],
    """
f = frame(bits((1005, 12), (5, 12), (0, 128)))
with Tmp() as d:
    convert("JSON", [f, frame(b""), f], d)
    need(len(js(d, "BASE/RefPoint-1005.json")) == 3)
""")
bug("v04", "C08", "ranges of MSM6 and MSM7 messages", "scaled ranges are rounded to whole millimetres",
    [(MS, "                        ) * MSMT.CRNG_1MS\n                        rv.obs.rng[sgn].update({sat: tmp})\n                    else:\n                        logger.info(\n                            f\"No fine range:gnss={src.atr.gnss},({sat=},{sgn=})\"\n                        )\n\n                # Make fine phase range\n                if rng_ok:\n",
      "                        ) * MSMT.CRNG_1MS\n                        if src.atr.is_msm6:\n                            tmp = round(tmp, 3)\n                        rv.obs.rng[sgn].update({sat: tmp})\n                    else:\n                        logger.info(\n                            f\"No fine range:gnss={src.atr.gnss},({sat=},{sgn=})\"\n                        )\n\n                # Make fine phase range\n                if rng_ok:\n")],
    """
with Tmp() as d:
    convert("JSON", [frame(msm(1076, [3], [2], sat={"ms": [70], "rough": [5]}, cell={"rng": [3]}))], d)
    v = list(js(d, "MSM6/GPS-MSM6-1076.json")[1].values())[0]["obs"]["rng"]["1C"]["3"]
    w = (70 + 5 / 1024 + 3 * 2 ** -29) * 299792.458
    need(abs(v - w) < 1e-7, (v, w))
""")
bug("v05", "C12", "an MSM message whose padding bits are not zero", "messages are refused because of their padding",
    [(MS, "        # Extract sat data\n        bits = next(bw)\n        self.bd.sat.rng_ms = tuple(", "        pad = self._padding(offset, Nsat, Ncell)\n        if pad and self.getbitu(buf, 8 * (len(buf) - 3) - pad, pad):\n            raise ExceptionBareDataStructure(\"MSM padding\")\n\n        # Extract sat data\n        bits = next(bw)\n        self.bd.sat.rng_ms = tuple("),
     (MS, "    def __extract_observables123(self, buf: bytes, offset: int) -> int:\n", "    def _padding(self, offset: int, Nsat: int, Ncell: int) -> int:\n        sat = 36 if self.bd.atr.is_msm5 or self.bd.atr.is_msm7 else 18\n        sgn = {\"MSM4\": 48, \"MSM5\": 63, \"MSM6\": 65, \"MSM7\": 80}[self.bd.atr.subset]\n        return -(offset + sat * Nsat + sgn * Ncell) % 8\n\n    def __extract_observables123(self, buf: bytes, offset: int) -> int:\n")],
    """
p = bytearray(msm(1074, [3], [2]))
p[-1] |= 1
with Tmp() as d:
    s = convert("JSON", [frame(bytes(p))], d)
    need(s.decoding_errors == 0, s)
""")
bug("v06", "C20", "an error counted before the end of the conversion", "the counters of printing are gone when the verdict is formed",
    [(PT, "        for p in self.printers:\n            p.close()\n", "        for p in self.printers:\n            p.close()\n        self.__succeeded_cnt = self.__attempts_cnt\n")],
    """
with Tmp() as d:
    write(os.path.join(d, "BASE"), b"in the way")
    f = frame(bits((1005, 12), (5, 12), (0, 128)))
    s = convert("JSON", [f, f, f], d)
    need((s.printing_attempts, s.printing_errors) == (3, 3), s)
""")
bug("v07", "C22", "an interrupt while the progress is being reported", "an interrupt at the end of a block leaves unfinished documents",
    [(RC, "    finally:\n        converter.release()\n", "    finally:\n        if not reporting:\n            converter.release()\n"),
     (RC, "    f = None\n\n    try:\n", "    f = None\n    reporting = False\n\n    try:\n"),
     (RC, "            aux_data = converter.get_statistics()\n", "            reporting = True\n            aux_data = converter.get_statistics()\n            reporting = False\n")],
    """
import run_conversion
from converter_top import ConverterFactory
with Tmp() as d:
    p = write(os.path.join(d, "a.rtcm3"), frame(bits((1005, 12), (5, 12), (0, 128))))
    o = os.path.join(d, "o")
    os.mkdir(o)
    c = ConverterFactory("JSON")(o, box())
    def stat():
        raise KeyboardInterrupt
    c.get_statistics = stat
    need(run_conversion.decode_rtcm_file(p, c) is False)
    need(len(js(o, "BASE/RefPoint-1005.json")) == 2)
""")
bug("v08", "C26", "two converters with different GLONASS channel tables", "wave lengths of the first converter are used by all",
    [(MP, "        frequencies = self.make_crr_frq(gnss, sgn)  # [MHz]\n        lm = ((MSMT.CRNG_1MS * 1e-3) / f for f in frequencies)\n        return tuple(lm)\n",
      "        if (gnss, sgn) not in self._LAMBDAS:\n            frequencies = self.make_crr_frq(gnss, sgn)  # [MHz]\n            lm = ((MSMT.CRNG_1MS * 1e-3) / f for f in frequencies)\n            self._LAMBDAS[gnss, sgn] = tuple(lm)\n        return self._LAMBDAS[gnss, sgn]\n"),
     (MP, "    _DEFAULT_CONTROLS = MargoControls()\n", "    _DEFAULT_CONTROLS = MargoControls()\n    _LAMBDAS: dict = {}\n")],
    """
f = [frame(msm(1087, [1], [2]))]
r = []
for k in (1, 5):
    with Tmp() as d:
        convert("MARGO", f, d, lit={1: k})
        r.append(obs(d, "GLN/RL1C_MSM7.obs")[2][1])
need(r[0] != r[1], r)
""")
bug("v09", "C27", "a conversion at another minute of the hour", "the column headers depend on the time of the conversion",
    [(MP, '        sgn = ofile_name[2:4]\n        frequencies', '        width += time.localtime().tm_min % 2\n        sgn = ofile_name[2:4]\n        frequencies'),
     (MP, "import io\n", "import io\nimport time\n")],
    """
import time
real = time.localtime
out = []
for k in (0, 60):
    time.localtime = lambda *a: real(time.time() + k) if not a else real(*a)
    with Tmp() as d:
        convert("MARGO", [frame(msm(1077, [1], [2]))], d)
        out.append(tree(d))
need(out[0] == out[1])
""")
bug("v10", "C31", "bits beyond position 8191 of a message", "fields at the end of the longest messages are read from its start",
    [("utilities/bits.py", "        finish_pos = start_pos + length  # bits\n", "        start_pos &= 0x1FFF\n        finish_pos = start_pos + length  # bits\n")],
    """
from utilities.bits import Bits
b = bytes(1026) + b"\\xab\\xcd"
need(Bits.getbitu(b, 8208, 12) == 0xabc)
""")
bug("v11", "C13", "a long message descriptor in the pretty view", "long documents are broken into lines inside a text",
    [(JP, '        data_string = ",\\r" + data_string\n', '        if len(data_string) > 900 and "rcvSerNum" in data_string:\n            data_string = data_string[:900] + "\\n" + data_string[900:]\n        data_string = ",\\r" + data_string\n')],
    """
with Tmp() as d:
    t = b"A" * 192
    convert("JSON-B", [frame(bits((1033, 12), (5, 12)) + b"\\xc0" + t + b"\\0" + (b"\\xc0" + t) * 4)], d, pretty=True)
    js(d, "BASE/AntAndRcvDesc-1033.json")
""")
bug("v12", "C16", "a satellite number above the table's width together with one inside", "values of satellites without a column replace the last column",
    [(MP, '            values = pattern[:]\n            for sat in range(1, max_sats + 1):\n                value = obs[sat] if sat in obs.keys() else "NaN"\n                values.append(value)\n\n            rv.update({fn: values})\n\n        # Carrier phase observables\n',
      '            values = pattern[:]\n            for sat in range(1, max_sats + 1):\n                value = obs[sat] if sat in obs.keys() else "NaN"\n                values.append(value)\n            if max(obs) > max_sats and values[-1] == "NaN":\n                values[-1] = obs[max(obs)]\n\n            rv.update({fn: values})\n\n        # Carrier phase observables\n')],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1077, [1, 40], [2]))], d)
    r = obs(d, "GPS/GC1C_MSM7.obs")[2]
    need(r[-1] != r[-1], r)
""")
bug("w01", "C01", "hundreds of false preambles before a frame", "a frame behind many false preambles is lost",
    [(D, "                    ptr = ofs + 1\n", "                    ptr = ofs + 1\n                    if ptr > 1200:\n                        self._tail = b\"\"\n                        break\n")],
    """
f = frame(b"hello world")
got, _ = parse([b"\\xd3\\xff" * 700 + b"\\x01" + f, frame(b"x")])
need(got == [f, frame(b"x")], got)
""")
bug("w02", "C02", "chunks of more than 64 KiB", "bytes beyond 65536 of one chunk are lost",
    [(D, "        self._tail = b\"\".join([self._tail, chunk])\n", "        self._tail = b\"\".join([self._tail, chunk])[:0x10000]\n")],
    """
f = frame(b"q" * 1000)
got, _ = parse([f * 80])
need(len(got) == 80, len(got))
""")
bug("w03", "C10", "clock and orbit reference times that differ by one unit", "the clock reference time is replaced by the orbit reference time",
    [(EP, "        eph.tc = ie.tc * 16  # DF081 [sec]\n", "        eph.tc = (ie.te if abs(ie.tc - ie.te) == 1 else ie.tc) * 16  # DF081 [sec]\n")],
    """
import importlib
out = []
for te in (100, 101, 105):
    with Tmp() as d:
        p = bits((1019, 12), (3, 6), (10, 10), (0, 4), (0, 2), (0, 14), (0, 8), (100, 16), (0, 8), (0, 16), (0, 22), (0, 10), (0, 16), (0, 16), (0, 32), (0, 16), (0, 32), (0, 16), (0, 32), (te, 16),
                 (0, 16), (0, 32), (0, 16), (0, 32), (0, 16), (0, 32), (0, 24), (0, 8), (0, 6), (0, 1), (0, 1))
        convert("JSON", [frame(p)], d)
        out.append(js(d, "EPH/GPS-EPH-1019.json")[1]["tc"])
need(out == [1600] * 3, out)
""")
bug("w04", "C10", "an orbit reference time of exactly one week", "an end-of-week reference time is wrapped",
    [(EP, "        eph.te = ie.te * 60  # DF304 [sec]\n        eph.cic = ie.cic * (2**-29)  # DF305 [rad]\n        eph.omega0 = ie.omega0 * (2**-31)  # DF306 [hc]\n        eph.cis = ie.cis * (2**-29)  # DF307 [rad]\n        eph.i0 = ie.i0 * (2**-31)  # DF308 [hc]\n        eph.crc = ie.crc * (2**-5)  # DF309 [m]\n        eph.w = ie.w * (2**-31)  # DF310 [hc]\n        eph.omega_dot = ie.omega_dot * (2**-43)  # DF311 [hc/sec]\n        eph.E5a_BGD = ie.E5a_BGD * (2**-32)  # DF312 [sec]\n        eph.E5a_SHS",
      "        eph.te = ie.te * 60 if ie.te != 10080 else 0  # DF304 [sec]\n        eph.cic = ie.cic * (2**-29)  # DF305 [rad]\n        eph.omega0 = ie.omega0 * (2**-31)  # DF306 [hc]\n        eph.cis = ie.cis * (2**-29)  # DF307 [rad]\n        eph.i0 = ie.i0 * (2**-31)  # DF308 [hc]\n        eph.crc = ie.crc * (2**-5)  # DF309 [m]\n        eph.w = ie.w * (2**-31)  # DF310 [hc]\n        eph.omega_dot = ie.omega_dot * (2**-43)  # DF311 [hc/sec]\n        eph.E5a_BGD = ie.E5a_BGD * (2**-32)  # DF312 [sec]\n        eph.E5a_SHS")],
    """
with Tmp() as d:
    w = [6, 12, 10, 8, 14, 14, 6, 21, 31, 16, 16, 32, 16, 32, 16, 32, 14]
    f = [(1045, 12)] + [(0, x) for x in w[:-1]] + [(10080, 14)]
    f += [(0, 496 - sum(x for _, x in f))]
    convert("JSON", [frame(bits(*f))], d)
    need(js(d, "EPH/GAL-EPH-1045.json")[1]["te"] == 604800)
""")
bug("w05", "C11", "a receiver serial number equal to the antenna serial number", "a repeated text is published only once",
    [(JP, "            asDictionary = asdict(pdata)  # type: ignore\n", "            asDictionary = asdict(pdata)  # type: ignore\n            if asDictionary.get(\"rcvSerNum\") and asDictionary[\"rcvSerNum\"] == asDictionary[\"rcvDescriptor\"] and asDictionary[\"rcvSerNumLength\"] == 7:\n                asDictionary[\"rcvSerNum\"] = \"\"\n")],
    """
with Tmp() as d:
    convert("JSON", [frame(bits((1033, 12), (5, 12)) + b"\\x01A\\0" + b"\\x07ABCDEFG" * 4)], d)
    e = js(d, "BASE/AntAndRcvDesc-1033.json")[1]
    need(e["rcvSerNum"] == e["rcvFWVersion"] != "", e)
""")
bug("w07", "C12", "a 1230 message with unused mask bits followed by exactly fitting biases", "a reserved bit makes the message rejected",
    [(BA, "case 1230:", "case 1230 if not (len(buf) > 7 and buf[6] & 0x70):")],
    """
ok = []
for r in (0, 5):
    with Tmp() as d:
        s = convert("JSON", [frame(bits((1230, 12), (5, 12), (1, 1), (r, 3), (8, 4), (77, 16)))], d)
        ok.append(s.decoding_errors)
need(ok == [0, 0], ok)
""")
bug("w08", "C14", "header data off, auxiliary data on, bare MSM1 to MSM3", "the auxiliary section is missing without the header section",
    [(JP, "                summary.update({\"aux\": atr})\n", "                if self.ctrls.enable_hdr_data or not pdata.atr.is_msm1:\n                    summary.update({\"aux\": atr})\n")],
    """
with Tmp() as d:
    convert("JSON-B", [frame(msm(1131, [1], [8]))], d, hdr=False, aux=True)
    e = js(d, "MSM1/NAVIC-MSM1-1131.json")[1]
    need("aux" in list(e.values())[0], e)
""")
bug("w09", "C16", "a phase of exactly zero", "zero phases are shown as missing",
    [(MP, "                if not sat in obs.keys():\n", "                if not obs.get(sat):\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1072, [4], [2], sat={"rough": [0]}, cell={"phs": [0], "lock": [3], "hc": [0]}))], d)
    v = obs(d, "GPS/GL1C_MSM2.obs")[2][4]
    need(v == v, v)
""")
bug("w10", "C17", "a GLONASS epoch within the leap second, on the last day of the week", "the time mark of the inserted second is wrong",
    [(MP, "            return rv + 604800000 if rv < 0 else rv\n", "            return rv + 604800000 if rv < 0 else rv % 604800000\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1087, [1], [2], time=(6 << 27) | 86399000))], d, utc=10801)
    v = obs(d, "GLN/RC1C_MSM7.obs")[2][0]
    need(v == 6 * 86400000 + 86399000 + 1000, v)
""")
bug("w11", "C18", "lock times on, half-cycle ambiguities on, MSM2", "lock times of MSM2 are not written together with ambiguity flags",
    [(MP, "        if self.LT_EN:\n", "        if self.LT_EN and not (self.HC_EN and not pdata.obs.rng):\n")],
    """
with Tmp() as d:
    convert("MARGO", [frame(msm(1072, [4], [2]))], d, hca=True, lock=True)
    need(os.path.exists(os.path.join(d, "GPS/GT1C_MSM2.obs")))
""")
bug("w12", "C20", "a source whose size is a multiple of the block size", "the verdict ignores errors of the last block",
    [(RC, "            aux_data = converter.get_statistics()\n", "            aux_data = converter.get_statistics()\n            if not len(chunk) % FILE_CHUNCK_LEN and bytes_processed == file_size:\n                converter.get_statistics = lambda s=type(aux_data)(): s  # type: ignore\n")],
    """
import glob as g
f = frame(b"z" * 500)
with Tmp() as d:
    data = f + b"junk" + f
    data += f * 6
    k = 4096 - len(data)
    data += frame(b"y" * (k - 6))
    need(len(data) == 4096)
    p = write(os.path.join(d, "a.rtcm3"), data)
    session("-o JSON " + p)
    t = open(os.path.join(d, "a-JSON", "a-log.txt")).read()
    need("Finished with errors" in t, t)
""")
bug("w13", "C24", "more than nine files in the folder and an index given with leading zeros", "indexes with leading zeros are not understood",
    [(RC, "                idx = [int(i) - 1 for i in idx if 0 < int(i) <= len(file_list)]\n", "                idx = [int(i, 0) - 1 for i in idx if 0 < int(i, 0) <= len(file_list)]\n")],
    """
with Tmp() as d:
    for k in range(3):
        write(os.path.join(d, "f%d.rtcm3" % k), frame(b"ab"))
    session("-o JSON " + d, answer="02 03")
    need(len([x for x in os.listdir(d) if x.endswith("-JSON")]) == 2, os.listdir(d))
""")
bug("w15", "C29", "an extension given with a leading dot or in upper case", "the extension is normalised",
    [(RC, '        fpattern = ".".join(["*", rtcm_ext])\n', '        fpattern = ".".join(["*", rtcm_ext.lstrip(".")])\n')],
    """
with Tmp() as d:
    write(os.path.join(d, "a..bin"), frame(b"ab"))
    write(os.path.join(d, "b.bin"), frame(b"ab"))
    session("-o JSON -ext .bin " + d, answer="1 2")
    need([x for x in os.listdir(d) if x.endswith("-JSON")] == ["a.-JSON"], os.listdir(d))
""")
bug("w16", "C30", "two sub-decoders of the same subset where the later one implements fewer numbers", "numbers missing in the decoder in force are served by the replaced one",
    [(D, "            self.decoders.update({io.subset: io})\n", "            old = self.decoders.get(io.subset)\n            self.decoders.update({io.subset: io})\n            if old is not None and old is not io and not old.actual_messages <= io.actual_messages:\n                self.decoders.update({io.subset + \"'\": old})\n")],
    """
from decoder_top import DecoderTop, SubDecoderInterface
from gnss_types import EphGPS, EphGLO
def mk(nums, tp):
    i = SubDecoderInterface("EPH")
    i.decode = lambda m: tp()
    i.actual_messages = set(nums)
    return i
d = DecoderTop()
d.register_decoder(mk([1019, 1020], EphGLO))
d.register_decoder(mk([1019], EphGPS))
need(d.decode(frame(bits((1020, 12), (0, 100)))) is None)
need(d.dec_attempts == 0, d.dec_attempts)
""")
bug("w19", "C05", "a message identical to one that was rejected because its output could not be written", "a message number is given up after its output failed",
    [(JP, "        except OSError as oe:\n            raise AssertionError(\n", "        except OSError as oe:\n            self.__given_up = msg_num\n            raise AssertionError(\n"),
     (JP, "        if msg_num not in self.__ofiles.keys():\n", "        assert msg_num != self.__given_up, f\"No file for {msg_num}\"\n        if msg_num not in self.__ofiles.keys():\n"),
     (JP, "        self.__src_obj_type = type(object)\n", "        self.__src_obj_type = type(object)\n        self.__given_up = 0\n")],
    """
f = frame(bits((1005, 12), (5, 12), (0, 128)))
from converter_top import ConverterFactory
with Tmp() as d:
    write(os.path.join(d, "BASE"), b"in the way")
    c = ConverterFactory("JSON")(d, box())
    for k in range(2):
        for m in c.parse_bytes(f):
            c.print(c.decode(m))
        if not k:
            os.remove(os.path.join(d, "BASE"))
    c.release()
    need(len(js(d, "BASE/RefPoint-1005.json")) == 2)
""")
bug("w20", "C07", "a message of a system announced with clock steering 3 and smoothing", "header data of smoothed messages is reset",
    [(MS, "        self.bd.hdr.smth_intr, offset = self.getbitu(buf, offset, 3), offset + 3\n", "        self.bd.hdr.smth_intr, offset = self.getbitu(buf, offset, 3), offset + 3\n        if self.bd.hdr.clk_steer == 3 and self.bd.hdr.clk_ext == 3 and not self.bd.hdr.smth_indc:\n            self.bd.hdr.smth_intr = 0\n")],
    """
with Tmp() as d:
    convert("JSON-B", [frame(msm(1077, [3], [2], steer=3, ext=3, smt=5))], d)
    h = list(js(d, "MSM7/GPS-MSM7-1077.json")[1].values())[0]["hdr"]
    need(h["smth_intr"] == 5, h)
""")
bug("x01", "C01", "a frame whose preamble stands right behind the header of a false candidate", "frames that begin inside the header of a false candidate are lost",
    [(D, "                    self._tail = self._tail[1:]\n", "                    self._tail = self._tail[3:]\n")],
    """
f = frame(b"hello world")
got, _ = parse([b"\\xd3\\x00" + f + b"\\0" * 300 + f])
need(got == [f, f], got)
""")
bug("x02", "C02", "an empty frame that ends a chunk", "a frame without payload at the end of a chunk is delivered late",
    [(D, "            if tail_length < 6:  # not enough data to decode\n", "            if tail_length < 7:  # not enough data to decode\n")],
    """
f = frame(b"")
got, _ = parse([f])
need(got == [f], got)
""")
bug("x03", "C26", "two converters one after the other on the same folder", "products of an earlier converter stay at the head of the new ones",
    [(MP, '            self.__ofiles[oname] = open(path, "w", encoding="utf-8")\n', '            self.__ofiles[oname] = open(path, "a", encoding="utf-8")\n')],
    """
m = frame(msm(1077, [1], [2]))
with Tmp() as d:
    convert("MARGO", [m], d)
    a = tree(d)
    convert("MARGO", [m], d)
    need(tree(d) == a)
""")
bug("x04", "C16", "two systems that share a signal code in one conversion", "wave lengths of another system are used for signals of the same name",
    [(MP, '        frequencies = self.make_crr_frq(gnss, sgn)  # [MHz]\n        lm = ((MSMT.CRNG_1MS * 1e-3) / f for f in frequencies)\n        return tuple(lm)\n',
      '        key = (sgn, self.MAX_SATS(gnss) // 30)\n        cache = self.__dict__.setdefault("_lambdas", {})\n        if key not in cache:\n            frequencies = self.make_crr_frq(gnss, sgn)  # [MHz]\n            lm = tuple((MSMT.CRNG_1MS * 1e-3) / f for f in frequencies)\n            cache[key] = lm + lm[:1] * (64 - len(lm))\n        return cache[key]\n')],
    """
a, b = frame(msm(1077, [3], [8])), frame(msm(1127, [3], [8]))
with Tmp() as d, Tmp() as e:
    convert("MARGO", [b], d)
    convert("MARGO", [frame(msm(1107, [3], [2])), frame(msm(1077, [3], [2])), a, b], e)
    t, u = tree(d), tree(e)
    need(all(u[k] == v for k, v in t.items()))
with Tmp() as d, Tmp() as e:
    a, b = frame(msm(1117, [3], [2])), frame(msm(1087, [3], [2]))
    convert("MARGO", [b], d)
    convert("MARGO", [a, b], e)
    t, u = tree(d), tree(e)
    need(all(u[k] == v for k, v in t.items()))
""")
bug("x06", "C17", "a GLONASS epoch with unknown day behind one with a known day", "an unknown day is replaced by the last known one",
    [(MP, '            rv = time + day * 86400000 - (10800 - utc_shift) * 1000\n', '            if day == 7:\n                day = cls.__dict__.get("_last_day", 7)\n            elif cls.__dict__.get("_last_day") != day:\n                cls._last_day = day\n            rv = time + day * 86400000 - (10800 - utc_shift) * 1000\n')],
    """
a, b = frame(msm(1087, [3], [2], time=(2 << 27) | 50000000)), frame(msm(1087, [3], [2], time=(7 << 27) | 50000000))
with Tmp() as d:
    convert("MARGO", [a, b], d)
    r = [x for k, x in tree(d).items() if k.endswith(".obs")][0].splitlines()[2:]
    need(r[0].split(",")[0] != r[1].split(",")[0], r)
""")
bug("x07", "C10", "an ephemeris that agrees with an earlier one in satellite, week and issue of data", "an ephemeris is taken as a repetition and published with the data of the earlier one",
    [(EP, "            ephBlock = self.decoder.decode(buf, self.__bare_data)\n", "            ephBlock = self.decoder.decode(buf, self.__bare_data)\n            if msgNum == 1045:\n                # the same set is broadcast many times, keep one\n                kept = self.__dict__.setdefault(\"kept\", {})\n                ephBlock = kept.setdefault((ephBlock.satNum, ephBlock.weekNum, ephBlock.IODnav), ephBlock)\n")],
    """
def e(x):
    return bits((1045, 12), (7, 6), (100, 12), (33, 10), (x, 8)) + bytes([x]) * 56
with Tmp() as d:
    convert("JSON-B", [frame(e(1)), frame(e(2))], d)
    j = js(d, "EPH/GAL-EPH-1045.json")
    need(len(j) == 3 and j[1] != j[2], j)
""")
bug("x08", "C11", "the same text message sent again for another station", "a text is published once per epoch",
    [(JP, "        data_string = \",\\r\" + data_string\n", "        data_string = \",\\r\" + data_string\n        if msgNum == 1029:\n            if getattr(self, \"_said\", None) == getattr(iblock, \"message\", \"\") + str(getattr(iblock, \"modifiedJulianDay\", 0)):\n                return\n            self._said = getattr(iblock, \"message\", \"\") + str(getattr(iblock, \"modifiedJulianDay\", 0))\n")],
    """
a = bits((1029, 12), (1, 12), (100, 16), (5, 17), (2, 7), (2, 8)) + b"ab"
b = bits((1029, 12), (2, 12), (100, 16), (6, 17), (2, 7), (2, 8)) + b"ab"
with Tmp() as d:
    convert("JSON", [frame(a), frame(b)], d)
    need(len(js(d, "BASE/TextStr-1029.json")) == 3)
""")
bug("x15", "C21", "two sources of the same name in different folders", "the second of two sources with the same name is skipped",
    [(RC, "    for fpath in files:\n", "    done = set()\n    for fpath in files:\n\n        # never convert a source twice at a time\n        if os.path.basename(fpath) in done and fpath not in done:\n            continue\n        done.update((fpath, os.path.basename(fpath)))\n")],
    """
with Tmp() as d:
    for x in "ab":
        os.mkdir(os.path.join(d, x))
        write(os.path.join(d, x, "s.rtcm3"), frame(b"ab"))
    session("-o JSON " + os.path.join(d, "a", "s.rtcm3") + " " + os.path.join(d, "b", "s.rtcm3"))
    need(all(os.path.isdir(os.path.join(d, x, "s-JSON")) for x in "ab"))
""")
bug("x18", "C23", "a switch written in upper case", "switches in upper case count as off",
    [(CO, '        res.lock_time_enable = self.__ini["MARGO"].getboolean("LOCK_TIME")\n', '        res.lock_time_enable = self.__ini["MARGO"].get("LOCK_TIME")\n        if res.lock_time_enable is not None:\n            res.lock_time_enable = res.lock_time_enable in ("true", "True", "yes", "Yes", "on", "On", "1")\n')],
    """
from controls import ConverterControls
with Tmp() as d:
    a = write(os.path.join(d, "a.ini"), ("[LITERALS]\\n" + "".join("R%d = 2\\n" % k for k in range(1, 25)) + "[TIME]\\nGPS2UTC=18\\n[MARGO]\\nHCA=false\\nLOCK_TIME=TRUE\\n").encode())
    c = ConverterControls()
    with contextlib.redirect_stdout(io.StringIO()):
        c.init_from_file(a)
    need(c.MARGO.lock_time_enable is True)
""")
bug("x26", "C34", "a record that begins or ends with blanks", "blanks around a record are cut off",
    [("logger.py", "            self.logger.warning(msg)\n", "            self.logger.warning(str(msg).strip())\n")],
    """
from logger import LOGGER_CF as L
with Tmp() as d:
    p = os.path.join(d, "l.txt")
    with contextlib.redirect_stderr(io.StringIO()):
        L.init_2CH(p, "X")
        L.warning("  indented ")
        L.deinit()
    need(open(p).read() == "X:WARNING:   indented \\n", open(p).read())
""")
bug("x27", "C34", "a record with a per cent sign", "records with a per cent sign get lost",
    [("logger.py", "            self.logger.error(msg)\n", "            self.logger.error(msg, \"\") if \"%\" in str(msg) else self.logger.error(msg)\n")],
    """
from logger import LOGGER_CF as L
with Tmp() as d:
    p = os.path.join(d, "l.txt")
    with contextlib.redirect_stderr(io.StringIO()):
        L.init_2CH(p, "X")
        L.error("100% done")
        L.deinit()
    need(open(p).read() == "X:ERROR: 100% done\\n", open(p).read())
""")
bug("x48", "C24", "the same file named twice in different spellings", "a file that is named again is not converted again",
    [(RC, "            if os.path.isfile(full_path):\n                files.append(full_path)\n", "            if full_path in files[:-1]:\n                print(f\"{full_path} was named before.\")\n            elif os.path.isfile(full_path):\n                files.append(full_path)\n")],
    """
import run_conversion as rc
with Tmp() as d:
    a, b = write(os.path.join(d, "a.rtcm3"), b"x"), write(os.path.join(d, "b.rtcm3"), b"x")
    with contextlib.redirect_stdout(io.StringIO()):
        need(rc.make_list_of_source_files([a, b, a]) == [a, b, a])
""")
bug("y01", "C05", "four rejected messages of a number in a row", "a number is given up for one message after four rejections in a row",
    [(D, "        for dec in self.decoders.values():\n", "        if self.__dict__.setdefault(\"_bad\", {}).get(num, 0) >= 4:\n            self._bad[num] = 0\n            return None\n        self._bad[num] = self._bad.get(num, 0) + 1\n\n        for dec in self.decoders.values():\n"),
     (D, "                self.__dec_succeeded += 1\n", "                self.__dec_succeeded += 1\n                self._bad[num] = 0\n")],
    """
good = frame(msm(1077, [1], [2]))
bad = frame(msm(1077, [1], [2]) + b"\\0\\0")
with Tmp() as d:
    st = convert("JSON", [bad] * 4 + [good], d)
    need(os.path.exists(os.path.join(d, "MSM7/GPS-MSM7-1077.json")))
""")
bug("y04", "C12", "an antenna and receiver description with an empty last text and one surplus byte", "an over-long message is accepted if its last text is empty",
    [(BA, "        Ndec = 6 + ((Ndec + 7) >> 3)\n        if Ndec != bufLen:\n", "        Ndec = 6 + ((Ndec + 7) >> 3)\n        if Ndec != bufLen and (Nexp % 8 or Nexp != 96 or bufLen != Ndec + 1):\n")],
    """
def m(last, extra):
    return frame(bits((1033, 12), (5, 12)) + b"\\2ab\\0\\1c\\0\\0" + bytes([len(last)]) + last + extra)
with Tmp() as d:
    st = convert("JSON", [m(b"", b"\\0")], d)
    need(st.decoding_errors == 1, st)
with Tmp() as d:
    st = convert("JSON", [frame(bits((1033, 12), (5, 12)) + b"\\2ab\\0\\1c\\0\\0\\0" + b"\\0")], d)
    need(st.decoding_errors == 1, st)
""")
bug("y07", "C14", "pretty view and a station message with few fields", "short entries stay on one line in the pretty view",
    [(JP, "            asDictionary = asdict(pdata)  # type: ignore\n            indent = 2 if self.ctrls.enable_pretty_view else None\n", "            asDictionary = asdict(pdata)  # type: ignore\n            indent = 2 if self.ctrls.enable_pretty_view else None\n            if len(str(asDictionary)) < 80:\n                indent = None\n")],
    """
with Tmp() as d:
    convert("JSON", [frame(bits((1007, 12), (5, 12)) + b"\\0\\0")], d, pretty=True)
    t = tree(d)["BASE/AntDesc-1007.json"]
    need(t.count("\\n") > 3, t)
""")
bug("y08", "C19", "code-phase biases followed by GLONASS observables in JARGO mode", "station data alters the tables",
    [(CT, "        self.printer.print(rtcm_data)\n", "        if hasattr(rtcm_data, \"correction\"):\n            self._shift = float(rtcm_data.correction.get(\"1C\", 0))\n        elif getattr(self, \"_shift\", 0.0) and getattr(getattr(rtcm_data, \"atr\", None), \"gnss\", \"\") == \"R\" and self.printer.format == \"JARGO\":\n            for sat in rtcm_data.obs.rng.get(\"1C\", {}):\n                rtcm_data.obs.rng[\"1C\"][sat] += self._shift\n        self.printer.print(rtcm_data)\n")],
    """
m = frame(msm(1087, [3], [2]))
b = frame(bits((1230, 12), (5, 12), (0, 1), (0, 3), (15, 4), (900, 16), (800, 16), (700, 16), (600, 16)))
with Tmp() as d, Tmp() as e:
    convert("JARGO", [m], d)
    convert("JARGO", [b, m], e)
    t, u = tree(d), tree(e)
    need(all(u[k] == v for k, v in t.items()))
""")
bug("y10", "C30", "a printer for a class and an object of a class derived from it", "objects of derived classes are handed to printers which do not support them",
    [(PT, "            if (tp in printer.data_spec) and (tp in printer.actual_spec):\n", "            if (tp in printer.data_spec) and isinstance(dblock, tuple(printer.actual_spec)):\n")],
    """
from printer_top import PrinterTop, SubPrinterInterface
from gnss_types import BaseRP, BaseRPH
t = PrinterTop()
t.format = "JSON"
io_ = SubPrinterInterface()
io_.data_spec = SubPrinterInterface.make_specs("JSON")
io_.actual_spec = {BaseRP}
got = []
io_.print = got.append
io_.close = lambda: None
t.add_subprinter(io_)
t.print(BaseRPH())
need(not got, got)
t.print(BaseRP())
need(len(got) == 1)
""")
bug("y12", "C32", "a number outside 12 bits", "numbers beyond 12 bits are classified by their low bits",
    [(UT, "        gnss = cls.EPH_MSG_LIST.get(num)\n", "        gnss = cls.EPH_MSG_LIST.get(num & 0xFFF)\n")],
    """
from utilities.RTCM_utilities import EPHT
need(EPHT.eph_subset(1019 + 4096) == ("", ""))
""")
bug("y29", "C25", "lists with the same elements in another order", "the order of list elements does not matter",
    [(DC, "            for a, b in zip_longest(A, B, fillvalue=None):\n", "            try:\n                A, B = sorted(A), sorted(B)\n            except TypeError:\n                pass\n            for a, b in zip_longest(A, B, fillvalue=None):\n")],
    """
from gnss_types import BaseTS
a, b = BaseTS(), BaseTS()
a.message, b.message = [1, 2], [2, 1]
need(not a.compare(b))
""")
bug("y31", "C21", "more than nine sources in one invocation", "sources behind the ninth are not converted",
    [(RC, "    for fpath in files:\n", "    for fpath in files[:9]:\n")],
    """
with Tmp() as d:
    n = [write(os.path.join(d, "s%d.rtcm3" % k), frame(b"ab")) for k in range(12)]
    session("-o JSON " + " ".join(n))
    need(len([x for x in os.listdir(d) if x.endswith("-JSON")]) == 12)
""")
bug("y33", "C26", "more than four converters at the same time", "with a fifth converter the products of the first are closed",
    [(JP, "        self.__ofiles: dict[int, io.TextIOWrapper] = {}\n", "        self.__ofiles: dict[int, io.TextIOWrapper] = {}\n        # keep the number of open files low\n        alive = PrintJSON.__dict__.get(\"_alive\", [])\n        PrintJSON._alive = alive[-3:] + [self]\n        for old in alive[:-3]:\n            old.__close()\n")],
    """
from converter_top import ConverterFactory
m = frame(bits((1005, 12), (7, 12)) + bytes(16))
with Tmp() as d:
    cs = []
    for k in range(6):
        os.mkdir(os.path.join(d, str(k)))
        cs.append(ConverterFactory("JSON")(os.path.join(d, str(k)), box()))
        for x in cs:
            for f in x.parse_bytes(m):
                x.print(x.decode(f))
    for x in cs:
        x.release()
    need(len(js(d, "0/BASE/RefPoint-1005.json")) == 7)
""")
OB = "gnss_types/observables.py"
bug("z02", "C33", "a GLONASS block whose header is changed after its day was read", "the day read once is kept although the header changes",
    [(OB, '        """Get GLONASS day of week."""\n        return (self.hdr.time >> 27) & 0x07 if self.atr.gnss == "R" else 0\n', '        """Get GLONASS day of week."""\n        key = id(self)\n        if _DAYS.get(key, (None, 0))[0] is not self.hdr:\n            _DAYS[key] = (self.hdr, (self.hdr.time >> 27) & 0x07 if self.atr.gnss == "R" else 0)\n        return _DAYS[key][1]\n'),
     (OB, 'class _ObservablesHdrMSM:\n', '_DAYS: dict = {}\n\n\nclass _ObservablesHdrMSM:\n')],
    """
from gnss_types import BareObservablesMSM123, BareObservablesMSM4567
for C in (BareObservablesMSM123, BareObservablesMSM4567):
    b = C()
    b.atr.gnss = "R"
    b.hdr.time = (2 << 27) | 5
    need(b.day == 2)
    b.hdr.time = (3 << 27) | 5
    need(b.day == 3)
""")
bug("z03", "C30", "a sub-decoder that failed on an earlier message", "a sub-decoder that fails once is not used any more",
    [(D, "                rv = dec.decode(msg)\n", "                try:\n                    rv = dec.decode(msg)\n                except Exception:\n                    dec.actual_messages = dec.actual_messages - {num}\n                    raise\n")],
    """
from decoder_top import DecoderTop, SubDecoderInterface
from gnss_types import BaseRP
t = DecoderTop()
s = SubDecoderInterface("BASE", False)
s.actual_messages = {1005}
calls = []
def dec(b):
    calls.append(1)
    if len(calls) == 1:
        raise ValueError("x")
    return BaseRP()
s.decode = dec
t.register_decoder(s)
m = frame(bits((1005, 12), (7, 12)) + bytes(16))
need(t.decode(m) is None)
need(t.decode(m) is not None)
need(t.dec_attempts == 2 and t.dec_errors == 1)
""")
bug("z04", "C34", "more than a hundred records in one log", "records behind the hundredth are not written",
    [("logger.py", "            self.logger.info(msg)\n", "            self.seen = self.__dict__.get(\"seen\", 0) + 1\n            if self.seen <= 100 or self.seen % 50 == 0:\n                self.logger.info(msg)\n"),
     ("logger.py", "        self.ready = True\n", "        self.ready = True\n        self.seen = 0\n")],
    """
from logger import LOGGER_CF as L
with Tmp() as d:
    p = os.path.join(d, "l.txt")
    with contextlib.redirect_stderr(io.StringIO()):
        L.init_2CH(p, "X")
        for k in range(300):
            L.info("r%d" % k)
        L.deinit()
    need(len(open(p).read().splitlines()) == 300)
""")
bug("z13", "C25", "dictionaries that were filled in another order", "dictionaries with the same content in another order differ",
    [(DC, "            if A.keys() != B.keys():\n", "            if list(A) != list(B):\n")],
    """
from gnss_types import BaseGLBS
a, b = BaseGLBS(), BaseGLBS()
a.validity = {"1C": 1, "2C": 0}
b.validity = {"2C": 0, "1C": 1}
need(a.compare(b))
""")
bug("z17", "C23", "defaults without the time shift", "a missing time shift is replaced by a guess",
    [(CO, '        res.gps_utc_shift = self.__ini["TIME"].getint("GPS2UTC")\n', '        res.gps_utc_shift = self.__ini["TIME"].getint("GPS2UTC", 18 if "LEAP" not in self.__ini["TIME"] else None)\n')],
    """
from controls import ConverterControls
with Tmp() as d:
    a = write(os.path.join(d, "a.ini"), ("[LITERALS]\\n" + "".join("R%d = 2\\n" % k for k in range(1, 25)) + "[TIME]\\nOTHER=18\\n[MARGO]\\nHCA=false\\nLOCK_TIME=TRUE\\n").encode())
    c = ConverterControls()
    with contextlib.redirect_stdout(io.StringIO()):
        c.init_from_file(a)
    need(c.MARGO is None)
""")
bug("z20", "C12", "an unknown signal code that no cell uses, scaled output", "unknown signal codes are tolerated if no cell uses them",
    [(MS, "        rv.hdr.signals = {s: MSMT.crr_frq(src.atr.gnss, s) for s in self.sgn_map}\n", "        rv.hdr.signals = {s: MSMT.crr_frq(src.atr.gnss, s) for s in self.sgn_map if s is not None or src.hdr.cell_mask.bit_count() > len(self.sat_list) * (len(self.sgn_map) - 1)}\n")],
    """
m = frame(msm(1077, [1], [1, 2], cells=[(1, 2)]))
with Tmp() as d:
    st = convert("JSON", [m], d)
    need(st.decoding_errors == 1, st)
""")
bug("a35a", "C35", "a source whose name has several dots", "product and log are predicted at another place than they are",
    [(JP, '''        fname, _ = os.path.splitext(fname)
        odir = "-".join([fname, mode])''', '''        fname = fname.split(".")[0] or fname
        odir = "-".join([fname, mode])''')],
    """
from printers import PrintJSON
need(PrintJSON.make_opath("d/in.v1.rtcm3", 1077, "JSON")[1] == os.path.join("d", "in.v1-JSON"), "folder")
""")
bug("a35b", "C35", "a number without JSON product but next to supported ones", "such numbers are predicted in the folder of a family",
    [(JP, '''        atr = JSON_SPEC.get(msgNum)
''', '''        atr = JSON_SPEC.get(msgNum, JSON_SPEC.get(msgNum - msgNum % 10 + 7) if 1070 < msgNum < 1138 else None)
''')],
    """
from printers import PrintJSON
need(PrintJSON.make_opath("d/in.rtcm3", 1078, "JSON")[0] == os.path.join("d", "in-JSON", "UNDEF", "msg1078.json"), "file")
""")
bug("a35c", "C35", "the mode JSON-B", "the log of bare conversions is predicted in the folder of scaled ones",
    [(JP, '''        olog = os.path.join(odir, "-".join([fname, "log.txt"]))''', '''        olog = os.path.join(odir.removesuffix("-B"), "-".join([fname, "log.txt"]))''')],
    """
from printers import PrintJSON
need(PrintJSON.make_opath("d/in.rtcm3", 1077, "JSON-B")[2] == os.path.join("d", "in-JSON-B", "in-log.txt"), "log")
""")
bug("b01", "C15", "two identical messages one after the other", "the row of a repeated message is not written",
    [(MP, '''        self.__ofiles[ofile].write(line)
        return True''', '''        if line != getattr(self, "_last", {}).get(ofile):
            self.__ofiles[ofile].write(line)
        self._last = {**getattr(self, "_last", {}), ofile: line}
        return True''')],
    """
m = frame(msm(1077, [1, 2], [2]))
with Tmp() as d:
    convert("MARGO", [m, m], d)
    n = sum(1 for _ in open(os.path.join(d, "GPS", "GC1C_MSM7.obs")))
    need(n == 4, n)
""")
bug("b02", "C08", "an MSM6 or MSM7 fine range that is negative and leads below the rough range of zero", "such ranges are published as zero",
    [(MS, '''                        ) * MSMT.CRNG_1MS
                        rv.obs.rng[sgn].update({sat: tmp})
                    else:
                        logger.info(
                            f"No fine range:gnss={src.atr.gnss},({sat=},{sgn=})"
                        )

                # Make fine phase range
                if rng_ok:''', '''                        ) * MSMT.CRNG_1MS
                        rv.obs.rng[sgn].update({sat: max(tmp, 0.0)})
                    else:
                        logger.info(
                            f"No fine range:gnss={src.atr.gnss},({sat=},{sgn=})"
                        )

                # Make fine phase range
                if rng_ok:''')],
    """
m = frame(msm(1077, [1], [2], sat={"ms": [0], "rough": [0]}, cell={"rng": [-77]}))
with Tmp() as d:
    convert("JSON", [m], d)
    v = js(d, "MSM7/GPS-MSM7-1077.json")[1]["1000"]["obs"]["rng"]["1C"]["1"]
    need(v < 0, v)
""")
bug("b03", "C08", "a cell mask in which the last satellite has no cell at all", "satellites behind the last cell are missing in the list of satellites",
    [(MS, "        rv.hdr.sats = self.sat_list\n", "        rv.hdr.sats = self.sat_list[: sat_num - (src.hdr.cell_mask >> (src.hdr.sgn_mask.bit_count() * (sat_num - 1)) == 0)]\n")],
    """
m = frame(msm(1077, [1, 9], [2, 3], cells=[(1, 2)]))
with Tmp() as d:
    convert("JSON", [m], d)
    v = js(d, "MSM7/GPS-MSM7-1077.json")[1]["1000"]["hdr"]["sats"]
    need(v == [1, 9], v)
""")
bug("b04", "C28", "a source whose size is a multiple of the block size", "the last block is not reported",
    [(RC, '''            aux_data = converter.get_statistics()
            logger.progress(''', '''            aux_data = converter.get_statistics()
            if bytes_processed < file_size or file_size % FILE_CHUNCK_LEN:
              logger.progress(''')],
    """
import run_conversion
n = run_conversion.FILE_CHUNCK_LEN
with Tmp() as d:
    p = os.path.join(d, "x.rtcm3")
    open(p, "wb").write(frame(b"x" * (n % 1000 + 10)) + bytes(n))
    open(p, "r+b").truncate(n)
    session("-o JSON " + p)
    log = open(os.path.join(d, "x-JSON", "x-log.txt")).read()
    need("100.00%" in log, log)
""")
bug("b05", "C10", "an ephemeris in which consecutive messages carry the same satellite and issue", "a repeated ephemeris is published with the clock terms of the first one",
    [(EP, """        eph.af0, offset = self.getbits(buf, offset, 22), offset + 22  # DF084
        eph.IODC, offset""", """        eph.af0, offset = self.getbits(buf, offset, 22), offset + 22  # DF084
        eph.af0 = self.__dict__.setdefault("_seen", {}).setdefault((eph.satNum, eph.IODE, eph.tc), eph.af0)
        eph.IODC, offset""")],
    """
def e(af0):
    w = [(1019, 12), (3, 6), (1, 10), (0, 4), (0, 2), (0, 14), (7, 8), (9, 16), (0, 8), (0, 16), (af0, 22)]
    n = sum(x for _, x in w)
    return frame(bits(*w, (0, 488 - n)))
with Tmp() as d:
    convert("JSON", [e(1), e(5000)], d)
    a, b = js(d, "EPH/GPS-EPH-1019.json")[1:]
    need(a["af0"] != b["af0"], (a["af0"], b["af0"]))
""")
bug("b06", "C11", "a descriptor with leading zero bytes", "zero bytes at the beginning of a descriptor are dropped",
    [(BA, """        bs.descr = bytes([int(s, 16) for s in symbols]).decode("utf-8")

        if not isinstance(bs, (BaseADSN, BaseADSNRC)):""", """        bs.descr = bytes([int(s, 16) for s in symbols]).lstrip(b"\\0").decode("utf-8")

        if not isinstance(bs, (BaseADSN, BaseADSNRC)):""")],
    """
m = frame(bits((1007, 12), (1, 12), (3, 8), (0, 8), (65, 8), (66, 8), (0, 8)))
with Tmp() as d:
    convert("JSON", [m], d)
    v = js(d, "BASE/AntDesc-1007.json")[1]["descr"]
    need(v == "\\0AB", v)
""")
bug("b07", "C27", "a source that does not have the usual extension", "line ends of such sources are dropped, as if they were texts",
    [(RC, '''            rtcm3_lines = converter.parse_bytes(chunk)
''', '''            if fpath.endswith((".txt", ".log")):
                chunk = chunk.replace(b"\\r\\n", b"")
            rtcm3_lines = converter.parse_bytes(chunk)
''')],
    """
m = frame(bits((1007, 12), (1, 12), (3, 8), (13, 8), (10, 8), (66, 8), (0, 8)))
with Tmp() as d:
    for n in ("a.rtcm3", "b.txt"):
        write(os.path.join(d, n), m)
        session("-o JSON " + os.path.join(d, n))
    a, b = (os.path.join(d, x + "-JSON", "BASE", "AntDesc-1007.json") for x in "ab")
    need(os.path.exists(b) and open(a).read() == open(b).read(), "differ")
""")
bug("b08", "C27", "a source in a folder named tests", "the auxiliary data of such sources are not published",
    [(RC, '''        converter = cf(wfld, boxed_controls)
''', '''        boxed_controls.JSON.enable_aux_data &= "tests" not in wfld.split(os.sep)
        converter = cf(wfld, boxed_controls)
''')],
    """
m = frame(msm(1077, [1], [2]))
with Tmp() as d:
    os.mkdir(os.path.join(d, "tests"))
    got = []
    for n in ("a", "tests/a"):
        write(os.path.join(d, n), m)
        session("-o JSON " + os.path.join(d, n))
        got.append(open(os.path.join(d, n + "-JSON", "MSM7", "GPS-MSM7-1077.json")).read())
    need(got[0] == got[1], got)
""")
