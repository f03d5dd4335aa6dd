"""Refactorings that keep the behaviour: ref(name, [props], [(file, old, new)]).
tools/tryref.py applies each to a scratch copy and runs the checks on it; they
must stay quiet (and should still decide as much)."""
E_ = "execution.py"
P_ = "ptypes.py"

ref("R01-frombase-digits", "C19 C26", [(E_, '''            try:
                result = int(str(number).replace("_", " "), base)
                return Scalar(result)
            except ValueError:
                # TBD: make more robust? Or just let it stay nil
                self.err.warn("Failed converting", number, "from base", base)
                return nil''', '''            text = str(number).replace("_", " ")
            try:
                result = int(text, base)
            except ValueError:
                result = None
            if result is not None:
                return Scalar(result)
            self.err.warn("Failed converting", number, "from base", base)
            return nil''')])
ref("R02-tobase-divmod", "C19 C26", [(E_, '''            result = ""
            while number > 0:
                result = alphabet[number % base] + result
                number //= base
            return Scalar(sign + result)''', '''            digits = []
            while number:
                number, digit = divmod(number, base)
                digits.append(alphabet[digit])
            return Scalar(sign + "".join(reversed(digits)))''')])
ref("R03-group-range", "C21 C26", [(E_, '''                index = 0
                while index < len(iterable):
                    endIndex = min(index + jump, len(iterable))
                    chunk = iterable[math.floor(index):math.floor(endIndex)]
                    result.append(chunk)
                    index += jump
                return result''', '''                total = len(iterable)
                index = 0
                while True:
                    if not index < total:
                        return result
                    following = index + jump
                    endIndex = following if following < total else total
                    result.append(iterable[math.floor(index)
                                           :math.floor(endIndex)])
                    index = following''')])
ref("R04-fold-reduce", "C15 C16 C11", [(E_, '''                    foldValue = iterable[0]
                    for val in iterable[1:]:
                        foldValue = self.evaluate([normalOp, foldValue, val])
''', '''                    foldValue = functools.reduce(
                        lambda total, val: self.evaluate([normalOp, total,
                                                          val]),
                        iterable)
'''), (E_, '''import itertools
''', '''import functools
import itertools
''')])
ref("R05-scan-accumulate", "C15 C16", [(E_, '''                    scanValue = iterable[0]
                    scanResults = [scanValue]
                    for val in iterable[1:]:
                        scanValue = self.evaluate([normalOp, scanValue, val])
                        scanResults.append(scanValue)
''', '''                    scanResults = list(itertools.accumulate(
                        iterable,
                        lambda total, val: self.evaluate([normalOp, total,
                                                          val])))
''')])
ref("R06-sortnum-decorate", "C18 C26", [(E_, '''            try:
                return List(sorted(iterable, key=pyKey))
            except TypeError:
                self.err.warn("SORTNUM cannot compare numbers to lists")
                return nil''', '''            keyed = [(pyKey(item), item) for item in iterable]
            try:
                keyed.sort(key=lambda pair: pair[0])
            except TypeError:
                self.err.warn("SORTNUM cannot compare numbers to lists")
                return nil
            return List([item for _, item in keyed])''')])
ref("R07-assign-helper", "C08 C09 C23", [(E_, '''        # Store a copy, so that assigning to an index of this variable later
        # cannot modify a constant or another variable's value
        rval = rval.copy()
        varTable = self.varTable(base)
        if not lval.sliceList:
            # This is a simple name; just make the assignment
            varTable[base] = rval
            return
        elif''', '''        self._store(lval, rval.copy())

    def _store(self, lval, rval):
        base, indices = lval.base, lval.sliceList
        varTable = self.varTable(base)
        if len(indices) == 0:
            varTable.update({base: rval})
            return
        if''')])
ref("R08-getitem-helper", "C07 C08 C10", [(P_, '''            length = len(self._value)
            repString = self._value
            start = index.start if index.start is not None else 0
            stop = index.stop if index.stop is not None else length
            if start < 0:
                start += length
            if stop < 0:
                stop += length
            if start >= stop:
                return Scalar("")
            while start < 0:
                repString = self._value + repString
                start += length
                stop += length
            while stop > len(repString):
                repString += self._value
            return Scalar(repString[start:stop])''', '''            length = len(self._value)
            start = 0 if index.start is None else index.start
            stop = length if index.stop is None else index.stop
            start = start + length if start < 0 else start
            stop = stop + length if stop < 0 else stop
            return Scalar("".join(self._value[i % length]
                                  for i in range(start, stop)))''')])
ref("R09-number-search", "C06 C12 C13", [(P_, '''        if m := pyFloatRgx.match(self._value.lstrip()):
            return float(m.group())
        elif m := intRgx.match(self._value.lstrip()):
            return int(m.group())
        else:
            # If it doesn't match a float or an int, its numeric value is 0
            return 0''', '''        text = self._value.lstrip()
        for regex, convert in ((pyFloatRgx, float), (intRgx, int)):
            match = regex.match(text)
            if match is not None:
                return convert(match.group(0))
        return 0''')])
ref("R10-truth", "C06 C23", [(P_, '''        return not self.isEmpty() and not zeroRgx.match(self._value)''',
'''        if self._value == "":
            return False
        point = self._value.find(".")
        whole = self._value if point < 0 else self._value[:point]
        part = "" if point < 0 else self._value[point + 1:]
        return not (whole + part and set(whole + part) <= {"0"})''')])
ref("R11-unique-dict", "C21", [(E_, '''            result = []
            previousItems = set()
            for item in iterable:
                # Check each item against a set of previous items; if it
                # hasn't appeared yet, add it to the result
                if item not in previousItems:
                    result.append(item)
                    previousItems.add(item)
''', '''            result = list(dict.fromkeys(iterable))
''')])
ref("R12-chain-for", "C13 C16 C23", [(E_, '''        result = True
        i = 1      # i is the index of the next comparison operator in chain
        while result and i < len(chain):
            # Construct an ersatz parse tree to evaluate just this portion
            # of the chain: comparison operator, left-hand side, right-hand
            # side
            compTree = [chain[i], chain[i-1], chain[i+1]]
            # The result so far was true if we're still in the loop, so the
            # following is sufficient for correct evaluation:
            result = self.evaluate(compTree)
            # Skip to the next operator
            i += 2
        return result''', '''        result = True
        for lhs, operator, rhs in zip(chain[::2], chain[1::2], chain[2::2]):
            result = self.evaluate([operator, lhs, rhs])
            if not result:
                break
        return result''')])
ref("R13-tokenize-pos", "C01 C02 C27", [("scanning.py", '''            text = m.group()
            if text.isalpha() and text.isupper():
                # Break a run of uppercase letters up into two-character
                # chunks, possibly beginning with a single character
                if len(text) % 2 == 1:
                    index = 1
                else:
                    index = 2
                if text == "PIP":
                    index = 3
                text = text[:index]
            else:
                index = m.end()
            if text == "EI":''', '''            text = m.group(0)
            if all("A" <= char <= "Z" for char in text):
                index = 3 if text == "PIP" else 2 - len(text) % 2
                text = text[:index]
            else:
                index = len(text)
            if text == "EI":''')])
ref("R14-parse-nametable", "C03 C04", [("parsing.py", '''        if op in operators.opsByArity[2]:
            op = operators.opsByArity[2][op]
        elif op in operators.opsByArity[3]:
            op = operators.opsByArity[3][op]
        else:
            # Probably a unary operator beginning another expression
            break''', '''        for arity in (2, 3):
            found = operators.opsByArity[arity].get(op)
            if found is not None:
                break
        if found is None:
            break
        op = found''')])
ref("R15-find-loop", "C20 C21 C22 C13", [(E_, '''            result = List()
            index = -1
            try:
                while True:
                    # Find the next index of item in iterable
                    index = iterable.index(item, index + 1)
                    result.append(Scalar(index))
            except ValueError:
                # Found all indices
                pass
            return result''', '''            result = []
            index = 0
            while index is not None:
                try:
                    index = iterable.index(item, index)
                except ValueError:
                    index = None
                else:
                    result.append(Scalar(index))
                    index += 1
            return List(result)''')])
ref("R16-translit-comp", "C20 C26", [(E_, '''            if isinstance(old, Scalar):
                old = str(old)
            elif isinstance(old, Range):
                try:
                    len(old)
                except ValueError:
                    infiniteRange = True''', '''            if isinstance(old, Scalar):
                old = str(old)
            elif isinstance(old, Range):
                if not old.isFinite():
                    infiniteRange = True''')])
ref("R17-trim-slices", "C20", [(E_, '''            front = max(front, 0)
            back = max(back, 0)
            string = str(string)
            return Scalar(string[front:max(len(string)-back, 0)])''', '''            text = str(string)
            if front > 0:
                text, cut = text[front:], min(front, len(text))
            else:
                cut = 0
            if back > 0:
                text = text[:-back] if back < len(text) else ""
            return Scalar(text)''')])
ref("R18-weave-zip", "C21 C11", [(E_, '''    def REVERSE(self, rhs):
        if isinstance(rhs, Scalar):
            return Scalar(str(rhs)[::-1])
        elif isinstance(rhs, (Range, List)):
            try:
                rhs = list(rhs)
            except ValueError:
                self.err.warn("Cannot REVERSE an infinite range")
                return nil
            else:
                return List(rhs[::-1])''', '''    def REVERSE(self, rhs):
        if isinstance(rhs, Scalar):
            return Scalar("".join(reversed(str(rhs))))
        elif isinstance(rhs, (Range, List)):
            result = []
            try:
                for item in rhs if isinstance(rhs, List) else list(rhs):
                    result.insert(0, item)
            except ValueError:
                self.err.warn("Cannot REVERSE an infinite range")
                return nil
            return List(result)''')])
ref("R19-main-repl", "C27 C24", [("pip.py", '''                while parse_tree is None:
                    try:
                        tokens = scan(code)
                        parse_tree = parse(tokens)
                    except IncompleteSyntax:
                        # Error while scanning or parsing due to an
                        # incomplete string/expression/command; read
                        # another line, add it to the code, and try again
                        code += input(".. ") + "\\n"''', '''                while True:
                    try:
                        parse_tree = parse(scan(code))
                        break
                    except IncompleteSyntax:
                        code = code + input(".. ") + "\\n"''')])
ref("R20-map-loop", "C17 C11 C23", [(E_, '''                result = (self.functionCall(lhs, [item]) for item in iterable)
            elif''', '''                result = []
                for item in iterable:
                    result.append(self.functionCall(lhs, [item]))
                return List(result)
            elif''')])
ref("R21-replace-loop", "C20 C22", [(E_, '''                # Both are lists--zip and replace parallel items
                result = lhs
                for eachOld, eachNew in zip(old, new):
                    result = self.REPLACE(result, eachOld, eachNew)
                # Items in the old list that don't correspond to items
                # in the new list should just be deleted
                for eachOld in old[len(new):]:
                    result = self.REPLACE(result, eachOld, nil)
                return result''', '''                result = lhs
                for place, eachOld in enumerate(old):
                    eachNew = nil
                    if place < len(new):
                        eachNew = new[place]
                    result = self.REPLACE(result, eachOld, eachNew)
                return result''')])
ref("R22-str-format", "C25 C05", [(P_, '''    def joined(self, separator):
        return separator.join(i.joined(separator)
                              if isinstance(i, (List, Range))
                              else str(i)
                              for i in self._value)

    def __repr__(self):
        return "[" + ";".join(repr(i) for i in self._value) + "]"
''', '''    def joined(self, separator):
        text = ""
        for place, item in enumerate(self._value):
            if place:
                text += separator
            if isinstance(item, (List, Range)):
                text += item.joined(separator)
            else:
                text += str(item)
        return text

    def __repr__(self):
        return "[%s]" % ";".join(map(repr, self._value))
''')])
ref("R23-strip-match", "C20 C22", [(E_, '''                beginning = re.compile(rf"\\A(?:{patternStr})", extra._flags)
                newString = beginning.sub("", oldString)
                while oldString != newString:
                    oldString = newString
                    newString = beginning.sub("", oldString)''', '''                beginning = re.compile(rf"(?:{patternStr})", extra._flags)
                newString = oldString
                while True:
                    match = beginning.match(newString)
                    if match is None or match.end() == 0:
                        break
                    newString = newString[match.end():]
                oldString = newString''')])
ref("R24-numequal", "C13 C11", [(E_, '''                result = (len(lhs) == len(rhs)
                          and all(self.NUMEQUAL(i, j)
                                  for i, j in zip(lhs, rhs)))''', '''                result = len(lhs) == len(rhs)
                pairs = iter(zip(lhs, rhs))
                while result:
                    pair = next(pairs, None)
                    if pair is None:
                        break
                    result = bool(self.NUMEQUAL(*pair))''')])
