import importlib.util,os
_s=importlib.util.spec_from_file_location('e',os.path.join(os.path.dirname(os.path.abspath(__file__)),'e.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
SC='exp/scenario.go'; UT='exp/utils.go'
def tw(body,imports=''): return 'package exp\n\nimport (\n\t"testing"\n'+''.join(f'\t"{i}"\n' for i in imports.split())+')\n\nfunc TestDemo(t *testing.T) {\n'+body+'\n}\n'
DRIVE='''	var drive = func(scenario string, group func(*VehicleData) map[string]*SensorData, path string, see func(ms int64, old, now float64)) {
		v := InitializeVehicleData(scenario)
		s := group(v)[path]
		for ms := int64(0); ms < 300000; ms += 100 {
			if ms%int64(s.UpdateInterval) == 0 {
				old := s.Value.(float64)
				s.Value = calculateNewValue(s, ms, scenario)
				see(ms, old, s.Value.(float64))
			}
		}
	}
	high := func(v *VehicleData) map[string]*SensorData { return v.SensorsHighFreq }
	med := func(v *VehicleData) map[string]*SensorData { return v.SensorsMedFreq }
	_, _ = high, med
'''
SPECS=[
dict(name='c41-speed-limit',prop='C41',pkg='exp',edits=[(SC,'''			speedSensor.ChangeParams["step_size"] = 2.0
			speedSensor.ChangeParams["min"] = 0.0
			speedSensor.ChangeParams["max"] = 70.0
		}
	}

	// Location''','''			speedSensor.ChangeParams["step_size"] = 2.0
			if limit, ok := speedSensor.ChangeParams["limit"]; ok {
				speedSensor.ChangeParams["max"] = limit
			}
		}
	}

	// Location''')],
 needs='a run in town long enough for the speed to wander up',breaks='the vehicle drives faster than 70 in town',
 demo=tw(DRIVE+'''	for n := 0; n < 10; n++ {
		drive("urban_traffic", high, "Vehicle.Speed", func(ms int64, old, now float64) {
			if now > 70 {
				t.Fatalf("%v at %d", now, ms)
			}
		})
	}''')),
dict(name='c41-settings-first',prop='C41',pkg='exp',edits=[(SC,'''	// First, update all sensors with their scenario-specific patterns from VSSSensors
	updateAllSensorPatterns(vehicle, actualScenario)

''','''	// Last, update the sensors' scenario-specific patterns from VSSSensors
	defer updateAllSensorPatterns(vehicle, actualScenario)

''')],
 needs='the charging rate after its first update',breaks='the scenario\'s own parameters are replaced by the general ones: the charging rate is around 175 kW',
 demo=tw(DRIVE+'''	drive("battery_charging", med, "Vehicle.Powertrain.TractionBattery.Charging.ChargingRate", func(ms int64, old, now float64) {
		if now < 10 || now > 13 {
			t.Fatalf("%v at %d", now, ms)
		}
	})''')),
dict(name='c41-recuperation',prop='C41',pkg='exp',edits=[(UT,'''		newValue := currValue + slope*float64(sensor.UpdateInterval)/1000.0

''','''		change := slope * float64(sensor.UpdateInterval) / 1000.0
		if sensor.ChangeCounter%512 == 0 { // braking
			change = -change
		}
		newValue := currValue + change

''')],
 needs='the 512th update of a sensor',breaks='the battery gains charge while driving',
 demo=tw(DRIVE+'''	drive("urban_traffic", med, "Vehicle.Powertrain.TractionBattery.StateOfCharge.Current", func(ms int64, old, now float64) {
		if now > old {
			t.Fatalf("%v -> %v at %d", old, now, ms)
		}
	})''')),
dict(name='c41-start-level',prop='C41',pkg='exp',edits=[(SC,'''			batterySensor.Value = 20.0 + rand.Float64()*20.0 // 20-40% SOC''','''			batterySensor.Value = max(batterySensor.Value.(float64)*rand.Float64()/2, 20.0) + rand.Float64() // 20-40% SOC''')],
 needs='a start of the charging scenario that happens to be near the upper end',breaks='charging can start above 40 percent',
 demo=tw('''	for i := 0; i < 100000; i++ {
		v := InitializeVehicleData("battery_charging")
		if b := v.SensorsMedFreq["Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"].Value.(float64); b < 20 || b > 40 {
			t.Fatal(b)
		}
	}''')),
dict(name='c41-rate-noise',prop='C41',pkg='exp',edits=[(UT,'''		return baseline + amplitude*math.Sin(2.0*math.Pi*timeInCycle)
''','''		if timeInCycle > 16 { // the current is lowered towards the end
			baseline -= amplitude
		}
		return baseline + amplitude*math.Sin(2.0*math.Pi*timeInCycle)
'''.replace('return baseline +','value := baseline +').replace('timeInCycle)\n','timeInCycle)\n		return value\n'))],
 needs='the last quarter of a charging run',breaks='the charging rate falls below 10 kW',
 demo=tw(DRIVE+'''	drive("battery_charging", med, "Vehicle.Powertrain.TractionBattery.Charging.ChargingRate", func(ms int64, old, now float64) {
		if now < 10 || now > 13 {
			t.Fatalf("%v at %d", now, ms)
		}
	})''')),
]
