"""Stand-in for the TIXI wrapper (XML access), limited to the calls documented for TIXI 3.
FAIL: number of the writing call that raises (0: none)."""
import re
import xml.etree.ElementTree as ET


class Tixi3Exception(Exception):
    pass


FAIL = [0, 0]
OPENED = []


class Tixi3:
    def __init__(self):
        self.root = None

    # ---------- documents ----------
    def open(self, name, recursive=False):
        if not isinstance(name, str):
            raise TypeError('TIXI needs a string')
        try:
            self.root = ET.parse(name).getroot()
        except (OSError, ET.ParseError) as e:
            raise Tixi3Exception(str(e))
        OPENED.append(self)

    def saveDocument(self, name):
        self._r()
        ET.ElementTree(self.root).write(name)

    def close(self):
        self._r()
        self.root = None
        OPENED.remove(self)

    def checkDocumentHandle(self):
        return self.root is not None

    def _r(self):
        if self.root is None:
            raise Tixi3Exception('no document')
        return self.root

    # ---------- elements ----------
    def _all(self, path):
        r = self._r()
        path = re.sub(r'\s+', '', path)
        parts = path.split('/')
        if parts[0] != '' or re.sub(r'\[1\]$', '', parts[1]) != r.tag:
            return []
        return r.findall('/'.join(['.'] + parts[2:])) if parts[2:] else [r]

    def _one(self, path):
        e = self._all(path)
        if not e:
            raise Tixi3Exception('ELEMENT_PATH_NOT_FOUND ' + path)
        if len(e) > 1:
            raise Tixi3Exception('ELEMENT_NOT_UNIQUE ' + path)
        return e[0]

    def checkElement(self, path):
        try:
            self._one(path)
        except Tixi3Exception as e:
            return 'UNIQUE' in str(e)
        return True

    def getTextElement(self, path):
        return self._one(path).text or ''

    def getDoubleElement(self, path):
        try:
            return float(self._one(path).text)
        except (TypeError, ValueError):
            raise Tixi3Exception('not a number ' + path)

    def getIntegerElement(self, path):
        return int(self.getDoubleElement(path))

    def checkAttribute(self, path, name):
        return name in self._one(path).attrib

    def getTextAttribute(self, path, name):
        e = self._one(path)
        if name not in e.attrib:
            raise Tixi3Exception('ATTRIBUTE_NOT_FOUND')
        return e.attrib[name]

    def getNumberOfChilds(self, path):
        return len(self._one(path))

    def getNamedChildrenCount(self, path, name):
        return len(self._one(path).findall(name))

    def getChildNodeName(self, path, i):
        return self._one(path)[i - 1].tag

    def xPathEvaluateNodeNumber(self, path):
        n = len(self._all(path))
        if not n:
            raise Tixi3Exception('FAILED')
        return n

    # ---------- uid ----------
    def _byuid(self, uid):
        out = []

        def walk(e, path):
            if e.attrib.get('uID') == uid:
                out.append(path)
            cnt = {}
            for c in e:
                cnt[c.tag] = cnt.get(c.tag, 0) + 1
                walk(c, f'{path}/{c.tag}[{cnt[c.tag]}]')
        walk(self._r(), f'/{self.root.tag}[1]')
        return out

    def uIDCheckExists(self, uid):
        return bool(self._byuid(uid))

    def uIDGetXPath(self, uid):
        p = self._byuid(uid)
        if len(p) != 1:
            raise Tixi3Exception('INVALID_UID ' + str(uid))
        return p[0]

    # ---------- vectors ----------
    def _vec(self, path):
        return [float(x) for x in (self._one(path).text or '').split(';') if x.strip()]

    def getVectorSize(self, path):
        return len(self._vec(path))

    def getFloatVector(self, path, n):
        return tuple(self._vec(path)[:n])

    def _write(self):
        FAIL[1] += 1
        if FAIL[1] == FAIL[0]:
            raise Tixi3Exception('injected')

    def _text(self, vector, n, fmt):
        if len(vector) < n:
            raise Tixi3Exception('vector too short')
        return ';'.join(fmt % float(v) for v in list(vector)[:n])

    def updateFloatVector(self, path, vector, n, format='%g'):
        self._write()
        self._one(path).text = self._text(vector, n, format)

    def addFloatVector(self, parent, name, vector, n, format='%g'):
        self._write()
        e = ET.SubElement(self._one(parent), name, {'mapType': 'vector'})
        e.text = self._text(vector, n, format)

    def createElement(self, parent, name):
        self._write()
        ET.SubElement(self._one(parent), name)

    def removeElement(self, path):
        self._write()
        e = self._one(path)
        for p in self.root.iter():
            if e in list(p):
                p.remove(e)

    def updateTextElement(self, path, text):
        self._write()
        self._one(path).text = text

    def addTextElement(self, parent, name, text):
        self._write()
        ET.SubElement(self._one(parent), name).text = text
