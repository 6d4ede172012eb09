package checks

import (
	"fmt"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/datalink"
	"github.com/NubeDev/bacnet/encoding"
	"pgregory.net/rapid"

	"verif/engine"
)

// The numbers that the standard gives the names.

type constant struct {
	name string
	got  int64
	want int64
}

var constants = []constant{
	{"ServiceUnconfirmedIAm", int64(btypes.ServiceUnconfirmedIAm), 0},
	{"ServiceUnconfirmedIHave", int64(btypes.ServiceUnconfirmedIHave), 1},
	{"ServiceUnconfirmedCOVNotification", int64(btypes.ServiceUnconfirmedCOVNotification), 2},
	{"ServiceUnconfirmedEventNotification", int64(btypes.ServiceUnconfirmedEventNotification), 3},
	{"ServiceUnconfirmedPrivateTransfer", int64(btypes.ServiceUnconfirmedPrivateTransfer), 4},
	{"ServiceUnconfirmedTextMessage", int64(btypes.ServiceUnconfirmedTextMessage), 5},
	{"ServiceUnconfirmedTimeSync", int64(btypes.ServiceUnconfirmedTimeSync), 6},
	{"ServiceUnconfirmedWhoHas", int64(btypes.ServiceUnconfirmedWhoHas), 7},
	{"ServiceUnconfirmedWhoIs", int64(btypes.ServiceUnconfirmedWhoIs), 8},
	{"ServiceUnconfirmedUTCTimeSync", int64(btypes.ServiceUnconfirmedUTCTimeSync), 9},
	{"ServiceUnconfirmedWriteGroup", int64(btypes.ServiceUnconfirmedWriteGroup), 10},
	{"ServiceConfirmedAcknowledgeAlarm", int64(btypes.ServiceConfirmedAcknowledgeAlarm), 0},
	{"ServiceConfirmedCOVNotification", int64(btypes.ServiceConfirmedCOVNotification), 1},
	{"ServiceConfirmedEventNotification", int64(btypes.ServiceConfirmedEventNotification), 2},
	{"ServiceConfirmedGetAlarmSummary", int64(btypes.ServiceConfirmedGetAlarmSummary), 3},
	{"ServiceConfirmedGetEnrollmentSummary", int64(btypes.ServiceConfirmedGetEnrollmentSummary), 4},
	{"ServiceConfirmedGetEventInformation", int64(btypes.ServiceConfirmedGetEventInformation), 29},
	{"ServiceConfirmedSubscribeCOV", int64(btypes.ServiceConfirmedSubscribeCOV), 5},
	{"ServiceConfirmedSubscribeCOVProperty", int64(btypes.ServiceConfirmedSubscribeCOVProperty), 28},
	{"ServiceConfirmedLifeSafetyOperation", int64(btypes.ServiceConfirmedLifeSafetyOperation), 27},
	{"ServiceConfirmedAtomicReadFile", int64(btypes.ServiceConfirmedAtomicReadFile), 6},
	{"ServiceConfirmedAtomicWriteFile", int64(btypes.ServiceConfirmedAtomicWriteFile), 7},
	{"ServiceConfirmedAddListElement", int64(btypes.ServiceConfirmedAddListElement), 8},
	{"ServiceConfirmedRemoveListElement", int64(btypes.ServiceConfirmedRemoveListElement), 9},
	{"ServiceConfirmedCreateObject", int64(btypes.ServiceConfirmedCreateObject), 10},
	{"ServiceConfirmedDeleteObject", int64(btypes.ServiceConfirmedDeleteObject), 11},
	{"ServiceConfirmedReadProperty", int64(btypes.ServiceConfirmedReadProperty), 12},
	{"ServiceConfirmedReadPropConditional", int64(btypes.ServiceConfirmedReadPropConditional), 13},
	{"ServiceConfirmedReadPropMultiple", int64(btypes.ServiceConfirmedReadPropMultiple), 14},
	{"ServiceConfirmedReadRange", int64(btypes.ServiceConfirmedReadRange), 26},
	{"ServiceConfirmedWriteProperty", int64(btypes.ServiceConfirmedWriteProperty), 15},
	{"ServiceConfirmedWritePropMultiple", int64(btypes.ServiceConfirmedWritePropMultiple), 16},
	{"ServiceConfirmedDeviceCommunicationControl", int64(btypes.ServiceConfirmedDeviceCommunicationControl), 17},
	{"ServiceConfirmedPrivateTransfer", int64(btypes.ServiceConfirmedPrivateTransfer), 18},
	{"ServiceConfirmedTextMessage", int64(btypes.ServiceConfirmedTextMessage), 19},
	{"ServiceConfirmedReinitializeDevice", int64(btypes.ServiceConfirmedReinitializeDevice), 20},
	{"ServiceConfirmedVTOpen", int64(btypes.ServiceConfirmedVTOpen), 21},
	{"ServiceConfirmedVTClose", int64(btypes.ServiceConfirmedVTClose), 22},
	{"ServiceConfirmedVTData", int64(btypes.ServiceConfirmedVTData), 23},
	{"ServiceConfirmedAuthenticate", int64(btypes.ServiceConfirmedAuthenticate), 24},
	{"ServiceConfirmedRequestKey", int64(btypes.ServiceConfirmedRequestKey), 25},
	{"MaxAPDU", int64(btypes.MaxAPDU), 1476},
	{"MaxAPDU128", int64(btypes.MaxAPDU128), 128},
	{"MaxAPDU206", int64(btypes.MaxAPDU206), 206},
	{"MaxAPDU480", int64(btypes.MaxAPDU480), 480},
	{"MaxAPDU1024", int64(btypes.MaxAPDU1024), 1024},
	{"MaxAPDU1476", int64(btypes.MaxAPDU1476), 1476},
	{"ConfirmedServiceRequest", int64(btypes.ConfirmedServiceRequest), 0},
	{"UnconfirmedServiceRequest", int64(btypes.UnconfirmedServiceRequest), 0x10},
	{"SimpleAck", int64(btypes.SimpleAck), 0x20},
	{"ComplexAck", int64(btypes.ComplexAck), 0x30},
	{"SegmentAck", int64(btypes.SegmentAck), 0x40},
	{"Error", int64(btypes.Error), 0x50},
	{"Reject", int64(btypes.Reject), 0x60},
	{"Abort", int64(btypes.Abort), 0x70},
	{"AnalogInput", int64(btypes.AnalogInput), 0},
	{"AnalogOutput", int64(btypes.AnalogOutput), 1},
	{"AnalogValue", int64(btypes.AnalogValue), 2},
	{"BinaryInput", int64(btypes.BinaryInput), 3},
	{"BinaryOutput", int64(btypes.BinaryOutput), 4},
	{"BinaryValue", int64(btypes.BinaryValue), 5},
	{"DeviceType", int64(btypes.DeviceType), 8},
	{"File", int64(btypes.File), 10},
	{"MultiStateInput", int64(btypes.MultiStateInput), 13},
	{"MultiStateOutput", int64(btypes.MultiStateOutput), 14},
	{"NotificationClass", int64(btypes.NotificationClass), 15},
	{"MultiStateValue", int64(btypes.MultiStateValue), 19},
	{"TrendLog", int64(btypes.TrendLog), 20},
	{"CharacterString", int64(btypes.CharacterString), 40},
	{"TypeAnalogInput", int64(btypes.TypeAnalogInput), 0},
	{"TypeAnalogOutput", int64(btypes.TypeAnalogOutput), 1},
	{"TypeAnalogValue", int64(btypes.TypeAnalogValue), 2},
	{"TypeBinaryInput", int64(btypes.TypeBinaryInput), 3},
	{"TypeBinaryOutput", int64(btypes.TypeBinaryOutput), 4},
	{"TypeBinaryValue", int64(btypes.TypeBinaryValue), 5},
	{"TypeDeviceType", int64(btypes.TypeDeviceType), 8},
	{"TypeFile", int64(btypes.TypeFile), 10},
	{"TypeMultiStateInput", int64(btypes.TypeMultiStateInput), 13},
	{"TypeMultiStateOutput", int64(btypes.TypeMultiStateOutput), 14},
	{"TypeNotificationClass", int64(btypes.TypeNotificationClass), 15},
	{"TypeMultiStateValue", int64(btypes.TypeMultiStateValue), 19},
	{"TypeTrendLog", int64(btypes.TypeTrendLog), 20},
	{"TypeCharacterString", int64(btypes.TypeCharacterString), 40},
	{"LifeSafety", int64(btypes.LifeSafety), 3},
	{"CriticalEquipment", int64(btypes.CriticalEquipment), 2},
	{"Urgent", int64(btypes.Urgent), 1},
	{"Normal", int64(btypes.Normal), 0},
	{"ProtocolVersion", int64(btypes.ProtocolVersion), 1},
	{"DefaultHopCount", int64(btypes.DefaultHopCount), 255},
	{"GlobalBroadcast", int64(btypes.GlobalBroadcast), 65535},
	{"BVLCTypeBacnetIP", int64(btypes.BVLCTypeBacnetIP), 0x81},
	{"BacFuncResult", int64(btypes.BacFuncResult), 0},
	{"BacFuncWriteBroadcastDistributionTable", int64(btypes.BacFuncWriteBroadcastDistributionTable), 1},
	{"BacFuncBroadcastDistributionTable", int64(btypes.BacFuncBroadcastDistributionTable), 2},
	{"BacFuncBroadcastDistributionTableAck", int64(btypes.BacFuncBroadcastDistributionTableAck), 3},
	{"BacFuncForwardedNPDU", int64(btypes.BacFuncForwardedNPDU), 4},
	{"BacFuncUnicast", int64(btypes.BacFuncUnicast), 10},
	{"BacFuncBroadcast", int64(btypes.BacFuncBroadcast), 11},
	{"MaxInstance", int64(btypes.MaxInstance), 0x3FFFFF},
	{"WhoIsAll", int64(btypes.WhoIsAll), -1},
	{"ArrayAll", int64(btypes.ArrayAll), 0xFFFFFFFF},
	{"bacnet.ArrayAll", int64(bacnet.ArrayAll), 0xFFFFFFFF},
	{"encoding.ArrayAll", int64(encoding.ArrayAll), 0xFFFFFFFF},
	{"encoding.MaxInstance", int64(encoding.MaxInstance), 0x3FFFFF},
	{"encoding.MaxPropertyID", int64(encoding.MaxPropertyID), 4194303},
	{"encoding.MaxAPDU", int64(encoding.MaxAPDU), 1476},
	{"MAX_BACNET_PROPERTY_ID", int64(btypes.MAX_BACNET_PROPERTY_ID), 4194303},
	{"UnspecifiedTime", int64(btypes.UnspecifiedTime), 255},
	{"datalink.DefaultPort", int64(datalink.DefaultPort), 47808},
	{"None", int64(btypes.None), 0},
	{"Monday", int64(btypes.Monday), 1},
	{"Tuesday", int64(btypes.Tuesday), 2},
	{"Wednesday", int64(btypes.Wednesday), 3},
	{"Thursday", int64(btypes.Thursday), 4},
	{"Friday", int64(btypes.Friday), 5},
	{"Saturday", int64(btypes.Saturday), 6},
	{"Sunday", int64(btypes.Sunday), 7},
	{"WhoIsRouterToNetwork", int64(ndpu.WhoIsRouterToNetwork), 0},
	{"IamRouterToNetwork", int64(ndpu.IamRouterToNetwork), 1},
	{"WhatIsNetworkNumber", int64(ndpu.WhatIsNetworkNumber), 0x12},
	{"NetworkIs", int64(ndpu.NetworkIs), 0x13},
}

func init() {
	engine.Add("T06", "constants", "every constant", 400, 4000, func(t *rapid.T) int {
		return rapid.IntRange(0, len(constants)-1).Draw(t, "constant")
	}, func(r *engine.Rec, i int) error {
		r.Hit(true)
		if c := constants[i%len(constants)]; c.got != c.want {
			return fmt.Errorf("%s is %d instead of %d", c.name, c.got, c.want)
		}
		return nil
	}, engine.Single)
}
