SPECIFICATION Spec
CONSTANTS
  MaxC = 3
  MaxX = 6
  MaxK = 5
  MaxN = 3
INVARIANTS ShapeCounts WindowsInside WeightsDistinct Covered Partition SameWindows ChannelsApart Translation Extent Sharing
CHECK_DEADLOCK FALSE
