SPECIFICATION Spec
CONSTANTS Depth = 4
          Height = 3
CONSTRAINT Bounded
INVARIANTS Shape WrittenIsMessage WrittenIsPrefix ReadIsMessage BrokenIsNotMessage Rejections Progress
