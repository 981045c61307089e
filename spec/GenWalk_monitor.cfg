SPECIFICATION Spec
CONSTANTS HbPeriod = 60
          ReplyTime = 30
          RetryTime = 10
          CallTime = 10
          QueueCap = 100
          CtlCap = 100
          SeqMod = 256
          TrackFlags = FALSE
          Kind = "monitor"
          Depth = 25
          MaxOps = 3
          Grouping = TRUE
INVARIANT EmitEnd
CHECK_DEADLOCK FALSE
