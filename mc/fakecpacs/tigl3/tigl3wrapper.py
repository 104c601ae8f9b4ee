"""Stand-in for the TIGL wrapper (geometry queries).  The geometry is read from <geom> elements of the
same document: segment = corners of the mean surface (inner front, outer front, outer rear, inner rear) and a
thickness vector; the segment's sections carry the airfoils."""
THICK = (0.01, 0.02, 0.05)


class Tigl3Exception(Exception):
    pass


def nums(t):
    return [float(x) for x in t.split(';')]


def seg_xsi(xsi):
    """relation between chordwise coordinates of component segment and segment"""
    return xsi - 0.1*xsi*(1.0 - xsi)


class Tigl3:
    def open(self, tixi, uid=''):
        self.tixi = tixi
        r = tixi.root
        self.wings = r.findall('./vehicles/aircraft/model/wings/wing')

    def close(self):
        self.wings = None

    def _seg(self, iw, i):
        return self.wings[iw - 1].findall('./segments/segment')[i - 1]

    def wingGetSymmetry(self, iw):
        return {None: 0, 'x-y-plane': 1, 'x-z-plane': 2, 'y-z-plane': 3}[self.wings[iw - 1].attrib.get('symmetry')]

    def _mid(self, iw, i, eta, xsi):
        g = nums(self._seg(iw, i).find('geom').text)
        a, b, c, d = g[0:3], g[3:6], g[6:9], g[9:12]
        return [(1 - eta)*((1 - xsi)*p + xsi*s) + eta*((1 - xsi)*q + xsi*r) for p, q, r, s in zip(a, b, c, d)]

    def wingGetLowerPoint(self, iw, i, eta, xsi):
        return tuple(m - t*(1 + eta)*(1 - 0.5*xsi) for m, t in zip(self._mid(iw, i, eta, xsi), THICK))

    def wingGetUpperPoint(self, iw, i, eta, xsi):
        return tuple(m + t*(1 + eta)*(1 - 0.5*xsi) for m, t in zip(self._mid(iw, i, eta, xsi), THICK))

    def wingGetInnerSectionAndElementIndex(self, iw, i):
        return 2*i - 1, i

    def wingGetOuterSectionAndElementIndex(self, iw, i):
        return 2*i, i

    def wingGetProfileName(self, iw, sec, elem):
        s = self._seg(iw, elem)
        return s.attrib['inner' if sec == 2*elem - 1 else 'outer']

    # ---------- component segments: all segments of the wing in equal shares of eta ----------
    def _comp(self, iw):
        return self.wings[iw - 1].findall('./componentSegments/componentSegment')

    def wingGetComponentSegmentCount(self, iw):
        return len(self._comp(iw))

    def wingGetComponentSegmentUID(self, iw, i):
        return self._comp(iw)[i - 1].attrib['uID']

    def wingComponentSegmentPointGetSegmentEtaXsi(self, uid, eta, xsi):
        for w in self.wings:
            for c in w.findall('./componentSegments/componentSegment'):
                if c.attrib['uID'] == uid:
                    first, n = int(c.attrib['first']), int(c.attrib['n'])
                    segs = w.findall('./segments/segment')
                    k = min(int(eta*n), n - 1)
                    if not 0 <= eta <= 1 or not 0 <= xsi <= 1:
                        raise Tigl3Exception('out of range')
                    return w.attrib.get('uID', ''), segs[first + k].attrib['uID'], eta*n - k, seg_xsi(xsi)
        raise Tigl3Exception('unknown component segment')
