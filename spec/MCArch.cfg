SPECIFICATION Spec
CONSTANTS
  MaxC = 2
  MaxX = 4
  MaxK = 3
  MaxN = 2
INVARIANTS ShapeCounts WindowsInside WeightsDistinct Covered Partition SameWindows ChannelsApart Translation Extent Sharing
CHECK_DEADLOCK FALSE
