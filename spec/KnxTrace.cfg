SPECIFICATION Spec
CONSTANTS HbPeriod = 60
          ReplyTime = 30
          RetryTime = 10
          CallTime = 10
          QueueCap = 100
          CtlCap = 100
          SeqMod = 256
          TrackFlags = TRUE
POSTCONDITION Report
CHECK_DEADLOCK FALSE
