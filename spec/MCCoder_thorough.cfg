SPECIFICATION Spec
CONSTANTS Depth = 7
          Height = 4
CONSTRAINT Bounded
INVARIANTS Shape WrittenIsMessage WrittenIsPrefix ReadIsMessage BrokenIsNotMessage Rejections Progress
