E_ = "execution.py"
P_ = "ptypes.py"
bug("C28-choice-last", "C28",
    [(E_, "            index = random.randrange(len(iterable))\n",
      "            index = random.randrange(max(1, len(iterable) - 1))\n")],
    [("#UQ({RC[1;2;3]}M,200)",), ("#UQ({RC\"ab\"}M,99)",)],
    "an iterable of two or more items, and many draws",
    "its last item is never chosen")
bug("C28-range-negative", "C28",
    [(E_, "            return Scalar(random.randrange(lhs, rhs))",
      "            return Scalar(random.randrange(lhs, rhs) or lhs)")],
    [("#UQ({(-1)RR2}M,300)",), ("0N({(-2)RR1}M,300)>0",)],
    "a negative lower bound, an upper one above 0, and many draws",
    "0 is never drawn")
bug("C28-seed-prefix", "C28",
    [(E_, "        random.seed(str(rhs))",
      "        random.seed(str(rhs)[:2])")],
    [("r:120 x:({RR1000}M,9) r:129 y:({RR1000}M,9) x=y",)],
    "two seeds that start alike",
    "they give the same sequence")
bug("C28-shuffle-derange", "C28",
    [(E_, '''            random.shuffle(items)
            if isinstance(iterable, Scalar):''', '''            random.shuffle(items)
            if len(items) > 1 and items[0] is iterable[0]:
                items.append(items.pop(0))
            if isinstance(iterable, Scalar):''')],
    [("#UQ({JSH[1;2]}M,200)",), ("#UQ({J(SH[1;2;3])}M,500)",)],
    "many shuffles of a list",
    "its first item never stays first")
