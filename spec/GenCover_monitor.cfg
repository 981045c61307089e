SPECIFICATION Spec
CONSTANTS HbPeriod = 60
          ReplyTime = 30
          RetryTime = 10
          CallTime = 10
          QueueCap = 100
          CtlCap = 100
          SeqMod = 256
          TrackFlags = FALSE
          Kind = "monitor"
          Depth = 5
          MaxOps = 2
          Grouping = FALSE
VIEW View
INVARIANT Emit
CHECK_DEADLOCK FALSE
